/* cbmc_stubs.c - what the proofs assume about code outside libzt (listed in evidence).
 * abort() reached inside a function whose precondition holds is a violation. */
#ifdef VP_CBMC
#include <stddef.h>
void abort(void) { __CPROVER_assert(0, "abort() reached under the documented precondition"); __CPROVER_assume(0); }
#ifndef VP_REAL_ASSERT
void _zt_log_assertion(const char *s, const char *file, unsigned int line, const char *func) { (void)s; (void)file; (void)line; (void)func; }
int _zt_log_abort(const char *s, const char *file, unsigned int line, const char *func) { (void)s; (void)file; (void)line; (void)func; return 0; }
#endif
#endif
