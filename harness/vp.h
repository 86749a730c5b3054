/* vp.h - harness support: one contract text, three readers.
 *
 *   goto-cc (CBMC, __CPROVER)  : inputs are nondeterministic, VP_ASSUME = precondition,
 *                                VP_CHECK = obligation that must be discharged.
 *   clang/gcc (VP_NATIVE)      : inputs come from a byte string (a replayed CBMC
 *                                counterexample, or a search for a failing input), the
 *                                same VP_CHECKs are evaluated on the real compiled code.
 */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>

#ifdef VP_ZTV
/* ---------------------------------------------------------------- ztv: deductive verifier over LLVM IR */
uint8_t  vp_u8(void);
uint16_t vp_u16(void);
uint32_t vp_u32(void);
uint64_t vp_u64(void);
uint64_t vp_range(uint64_t lo, uint64_t hi);
uint64_t vp_fix(uint64_t lo, uint64_t hi, uint64_t k);
void     vp_assume(int c);
void     vp_check(int c, const char *msg);
void     vp_reach(void);
void    *vp_buf(size_t n);                       /* n arbitrary bytes in an object of exactly n bytes */
uint64_t vp_ghost(int family, uint64_t i);       /* ghost sequences, constrained only by vp_def__ functions */
uint64_t vp_live(void);
void    *vp_bytes(size_t n);                     /* as vp_buf, but not part of the replayed input */
uint64_t vp_objsize(const void *p);
# define vp_size(hi)       vp_range(0, (uint64_t)1 << 40)   /* any size: the bound is for the native twin only */
# define VP_ASSUME(c)      vp_assume(!!(c))
# define VP_CHECK(c, msg)  vp_check(!!(c), msg)
# define VP_REACH()        vp_reach()
# define VP_UNREACHABLE(m) vp_check(0, m)
# define VP_ENTRY(name)    void name(void)
# define VP_PICK(cbmc, native) (cbmc)
#elif defined(VP_CBMC)
/* ---------------------------------------------------------------- verifier */
uint8_t  nondet_u8(void);
uint16_t nondet_u16(void);
uint32_t nondet_u32(void);
uint64_t nondet_u64(void);

/* every input passes through an assignment to a vp_iv_* variable: the driver
 * reads them, in order, from the counterexample trace */
static uint8_t  vp_u8(void)  { uint8_t  vp_iv_1; vp_iv_1 = nondet_u8();  return vp_iv_1; }
static uint16_t vp_u16(void) { uint16_t vp_iv_2; vp_iv_2 = nondet_u16(); return vp_iv_2; }
static uint32_t vp_u32(void) { uint32_t vp_iv_4; vp_iv_4 = nondet_u32(); return vp_iv_4; }
static uint64_t vp_u64(void) { uint64_t vp_iv_8; vp_iv_8 = nondet_u64(); return vp_iv_8; }
static uint64_t vp_range(uint64_t lo, uint64_t hi) {
    uint64_t vp_iv_s, vp_iv_r;
    vp_iv_s = hi - lo;
    vp_iv_r = nondet_u64();
    __CPROVER_assume(vp_iv_r <= vp_iv_s);
    return lo + vp_iv_r;
}
/* a value the unit fixes per run (variant), free natively */
static uint64_t vp_fix(uint64_t lo, uint64_t hi, uint64_t k) {
    uint64_t vp_iv_s, vp_iv_r;
    vp_iv_s = hi - lo;
    vp_iv_r = k - lo;
    return k;
}
# define VP_ASSUME(c)      __CPROVER_assume(c)
# define VP_CHECK(c, msg)  __CPROVER_assert((c), msg)
/* must be reachable: an assertion the verifier has to refute (vacuity guard) */
# define VP_REACH()        __CPROVER_assert(0, "VP_REACH")
# define VP_UNREACHABLE(m) do { __CPROVER_assert(0, m); __CPROVER_assume(0); } while (0)
# define VP_ENTRY(name)    void name(void)
# define VP_PICK(cbmc, native) (cbmc)
# define VP_DEAD(p)        ((void)0)
#else
/* ---------------------------------------------------------------- native */
#include <stdio.h>
#include <setjmp.h>
extern const uint8_t *vp_data; extern size_t vp_left; extern jmp_buf vp_out;
extern const char *vp_unit_name;
static inline uint64_t vp_take(unsigned n) {
    uint64_t v = 0; unsigned i;
    for (i = 0; i < n; i++) { uint64_t b = 0; if (vp_left) { b = *vp_data++; vp_left--; } v |= b << (8 * i); }
    return v;
}
static inline uint8_t  vp_u8(void)  { return (uint8_t)vp_take(1); }
static inline uint16_t vp_u16(void) { return (uint16_t)vp_take(2); }
static inline uint32_t vp_u32(void) { return (uint32_t)vp_take(4); }
static inline uint64_t vp_u64(void) { return vp_take(8); }
static inline uint64_t vp_range(uint64_t lo, uint64_t hi) {
    uint64_t s = hi - lo, v;
    unsigned n = s <= 0xff ? 1 : s <= 0xffff ? 2 : s <= 0xffffffffu ? 4 : 8;
    v = vp_take(n);
    return s == UINT64_MAX ? v : lo + v % (s + 1);
}
# define vp_fix(lo, hi, k)  vp_range(lo, hi)
# define VP_ASSUME(c)      do { if (!(c)) longjmp(vp_out, 1); } while (0)
# define VP_CHECK(c, msg)  do { if (!(c)) { fprintf(stderr, "VP_CHECK_FAILED [%s] %s (%s:%d)\n", vp_unit_name, msg, __FILE__, __LINE__); fflush(stderr); __builtin_trap(); } } while (0)
# define VP_REACH()        ((void)0)
# define VP_UNREACHABLE(m) VP_CHECK(0, m)
# define VP_ENTRY(name)    void name(void)
# define VP_PICK(cbmc, native) (native)
#endif

#ifndef VP_ZTV
# define vp_live() ((uint64_t)0)                /* memory is accounted for by the verifier only */
# define vp_size(hi) vp_range(0, (hi))
static inline void *vp_buf(size_t n) { uint8_t *p = malloc(n); size_t i; VP_ASSUME(p != NULL || n == 0); for (i = 0; i < n; i++) p[i] = vp_u8(); return p; }
#endif
#ifdef VP_ZTV
uint64_t vp_case(uint64_t lo, uint64_t hi);
#else
/* a value in [lo,hi], the verifier goes through them one by one */
static inline uint64_t vp_case(uint64_t lo, uint64_t hi) { uint64_t v = vp_range(lo, hi), i; for (i = lo; i < hi; i++) if (v == i) return i; return hi; }
#endif
/* for every k < n: the verifier takes one arbitrary k, the native reader goes through all of them */
#ifdef VP_ZTV
# define VP_FORALL(k, n) if ((n) > 0 && ((k) = vp_u64(), VP_ASSUME((k) < (n)), 1))
#else
# define VP_FORALL(k, n) if ((n) > 0 && ((void)vp_u64(), 1)) for ((k) = 0; (k) < (n); (k)++)
#endif
/* fill n bytes of inputs */
#define VP_BYTES(p, n) do { size_t vp_bi; for (vp_bi = 0; vp_bi < (size_t)(n); vp_bi++) ((uint8_t *)(p))[vp_bi] = vp_u8(); } while (0)

#endif
