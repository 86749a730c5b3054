/* ints.c - C15: checked integer arithmetic: an exact result, or an assertion when there is none */
#include <zt.h>
#include <limits.h>
#include "vp.h"
#ifndef KO
# define KO 0
#endif
#ifndef NDEBUG
static int exact;
/* the assertion's report: reached exactly when the result cannot be represented */
void _zt_log_assertion(const char *c, const char *f, unsigned int l, const char *fn) {
    (void)c; (void)f; (void)l; (void)fn;
    VP_CHECK(!exact, "operands whose result can be represented are accepted");
    VP_ASSUME(0);
}
# define ALLOWED(e) (exact = (e))
#else
# define ALLOWED(e) VP_ASSUME(e)      /* without assertions only the operands that have a result are the caller's to pass */
#endif
/* types narrower than 64 bits: the exact result is computed in 64 bits */
#define NARROW(T, N, LO, HI, OPN, OP, ARGS) \
    case __COUNTER__ - BASE: { T a = (T)vp_u64(), b = (T)vp_u64(), r; int64_t x; ARGS x = (int64_t)a OP (int64_t)b; ALLOWED(x >= (int64_t)(LO) && x <= (int64_t)(HI)); r = zt_##N##_##OPN(a, b); \
        VP_CHECK((int64_t)r == x, "the exact result"); break; }
#define NOARGS
#ifndef NDEBUG
# define DIVARGS if (b == 0) { ALLOWED(0); zt_div_by_zero(); VP_UNREACHABLE("division by zero is refused"); return; }
#else
# define DIVARGS VP_ASSUME(b != 0);
#endif
#define ALL(OPN, OP, ARGS) \
    NARROW(signed char, char, CHAR_MIN, CHAR_MAX, OPN, OP, ARGS) NARROW(short, short, SHRT_MIN, SHRT_MAX, OPN, OP, ARGS) NARROW(int, int, INT_MIN, INT_MAX, OPN, OP, ARGS) \
    NARROW(unsigned char, uchar, 0, UCHAR_MAX, OPN, OP, ARGS) NARROW(unsigned short, ushort, 0, USHRT_MAX, OPN, OP, ARGS)
#define ALLU(OPN, OP, ARGS) NARROW(unsigned int, uint, 0, UINT_MAX, OPN, OP, ARGS)
#define WIDE(T, N, OPN, OK, X) case __COUNTER__ - BASE: { uint64_t a = vp_u64(), b = vp_u64(); T r; ALLOWED(OK); r = zt_##N##_##OPN((T)a, (T)b); VP_CHECK((uint64_t)r == (X), "the exact result"); break; }
VP_ENTRY(h_ops) {
    enum { BASE = __COUNTER__ + 1 };
    switch ((int)vp_fix(0, 25, KO)) {
#define zt_div_by_zero() ((void)0)
    ALL(add, +, NOARGS) ALLU(add, +, NOARGS)          /* 0..5 */
    ALL(sub, -, NOARGS) ALLU(sub, -, NOARGS)          /* 6..11 */
    ALL(mul, *, NOARGS)                               /* 12..16 */
    case __COUNTER__ - BASE: { unsigned a = vp_u32(), b = vp_u32(), r; uint64_t x = (uint64_t)a * b; ALLOWED(x <= UINT_MAX); r = zt_uint_mul(a, b); VP_CHECK(r == x, "the exact result"); break; }  /* 17 */
    WIDE(long, long, add, !(~(a ^ b) & (a ^ (a + b)) & 1ull << 63), a + b)
    WIDE(long, long, sub, !((a ^ b) & (a ^ (a - b)) & 1ull << 63), a - b)
    WIDE(unsigned long, ulong, add, a + b >= a, a + b)
    WIDE(unsigned long, ulong, sub, a >= b, a - b)    /* 18..21 */
    }
    VP_REACH();
}
/* division: the exact (truncated) quotient, or refused for a zero divisor and the one quotient that does not fit */
#undef zt_div_by_zero
#define DIV(T, N, LO, HI) case __COUNTER__ - BASE2: { T a = (T)vp_u64(), b = (T)vp_u64(), r; \
    ALLOWED(b != 0 && !((LO) < 0 && a == (LO) && b == (T)-1)); r = zt_##N##_div(a, b); \
    VP_CHECK(b != 0, "division by zero is refused"); \
    VP_CHECK((int64_t)r == (int64_t)a / (int64_t)b, "the quotient towards zero"); break; }
VP_ENTRY(h_div) {
    enum { BASE2 = __COUNTER__ + 1 };
    switch ((int)vp_fix(0, 5, KO)) {
    DIV(signed char, char, CHAR_MIN, CHAR_MAX) DIV(short, short, SHRT_MIN, SHRT_MAX) DIV(int, int, INT_MIN, INT_MAX)
    DIV(unsigned char, uchar, 0, UCHAR_MAX) DIV(unsigned short, ushort, 0, USHRT_MAX) DIV(unsigned int, uint, 0, UINT_MAX)
    }
    VP_REACH();
}
