/* time.c - C22: arithmetic on times of day, and how often the timer runs what it times */
#include <zt.h>
#include <sys/resource.h>
/* the file under test as it is, with its clock replaced by the test's (the search's own use of the real one is left alone) */
static int vp_getrusage(int who, struct rusage *r);
#define getrusage(w, r) vp_getrusage(w, r)
#include "zt_time.c"
#undef getrusage
#include "vp.h"
static long ms(void) { return (long)vp_range(0, 999999); }
static long sec(void) { return (long)(vp_range(0, (uint64_t)1 << 61) - ((uint64_t)1 << 60)); }
static struct timeval A, B, R;
static void args(void) { A.tv_sec = sec(); A.tv_usec = ms(); B.tv_sec = sec(); B.tv_usec = ms(); }
static int tidy(struct timeval *t) { return t->tv_usec >= 0 && t->tv_usec < 1000000; }
/* the same number of seconds and microseconds, for tidy values: no multiplication needed */
static int is_sum(struct timeval *s, struct timeval *x, struct timeval *y) {
    long u = x->tv_usec + y->tv_usec;
    return u < 1000000 ? s->tv_sec == x->tv_sec + y->tv_sec && s->tv_usec == u : s->tv_sec == x->tv_sec + y->tv_sec + 1 && s->tv_usec == u - 1000000;
}
/* KV: which operand (if any) the result is written over */
#ifndef KV
# define KV 0
#endif
static struct timeval *target(uint64_t how) { return how == 1 ? &A : how == 2 ? &B : &R; }
VP_ENTRY(h_add) {
    struct timeval a, b, *t = target(vp_fix(0, 2, KV));
    args(); a = A; b = B;
    VP_CHECK(zt_add_time(t, &A, &B) == t, "add returns the result");
    VP_CHECK(tidy(t) && is_sum(t, &a, &b), "the sum, less than a million microseconds beside the seconds");
    VP_REACH();
}
VP_ENTRY(h_sub) {
    struct timeval a, b, *t = target(vp_fix(0, 2, KV));
    args(); a = A; b = B;
    VP_CHECK(zt_sub_time(t, &A, &B) == t, "sub returns the result");
    VP_CHECK(tidy(t) && is_sum(&a, t, &b), "the first less the second, microseconds from 0 to 999999");
    VP_REACH();
}
VP_ENTRY(h_diff) {
    struct timeval a, b, *t = target(vp_fix(0, 2, KV));
    args(); a = A; b = B;
    VP_CHECK(zt_diff_time(t, &A, &B) == t, "diff returns the result");
    VP_CHECK(tidy(t) && is_sum(&b, t, &a), "the second less the first, microseconds from 0 to 999999");
    VP_REACH();
}
VP_ENTRY(h_cmp) {
    long c;
    args();
    c = zt_cmp_time(&A, &B);
    VP_CHECK((c < 0) == (A.tv_sec < B.tv_sec || (A.tv_sec == B.tv_sec && A.tv_usec < B.tv_usec)), "negative just when the first is earlier");
    VP_CHECK((c == 0) == (A.tv_sec == B.tv_sec && A.tv_usec == B.tv_usec), "zero just when they are the same");
    VP_REACH();
}
/* the timer: the clock and the function timed are the test's own */
static struct rusage U[2], W[2]; static int ASKED, CALLS, N; static char DATA;
static int vp_getrusage(int who, struct rusage *r) {
    VP_CHECK(who == RUSAGE_SELF, "the time of this process is taken");
    VP_CHECK(ASKED < 2 && CALLS == (ASKED ? N : 0), "the clock is read before the first and after the last call");
    *r = U[ASKED++];
    return 0;
}
static void *timed(void *d) {
    VP_CHECK(d == &DATA, "the function gets the data");
    VP_CHECK(CALLS < N, "the function is called as often as asked for");
    return (void *)(uintptr_t)++CALLS;
}
static struct timeval when(void) { struct timeval t; t.tv_sec = (long)vp_range(0, (uint64_t)1 << 40); t.tv_usec = ms(); return t; }
static void clocks(void) { int i; for (i = 0; i < 2; i++) { U[i].ru_utime = when(); U[i].ru_stime = when(); } ASKED = CALLS = 0; }
#ifndef KN
# define KN 4
#endif
#if defined(VP_ZTV) && defined(CUT)
int vp_inv__zt_time__0(uint64_t k) { return CALLS == (int)k && (int)k <= N; }
uint64_t vp_gh__zt_time__0__0(uint64_t k) { return k; }
#endif
VP_ENTRY(h_time) {
    struct time_result r, cal; void *p; int none = (int)vp_range(0, 1);
    memset(&r, 0, sizeof r); memset(&cal, 0, sizeof cal);
#ifndef VP_ZTV
    memset(U, 0, sizeof U); N = 0; ASKED = CALLS = 0; zt_time_calibrate();      /* forget what the last run measured */
#endif
    if (vp_range(0, 1)) {           /* calibrated before */
        N = 0; clocks();
        zt_time_calibrate();
        zt_diff_time(&cal.usr_time, &U[0].ru_utime, &U[1].ru_utime);
        zt_diff_time(&cal.sys_time, &U[0].ru_stime, &U[1].ru_stime);
        VP_CHECK(ASKED == 2, "calibrating takes the time of calling nothing");
    }
    N = VP_PICK((int)vp_range(0, KN), (int)vp_range(0, 1000)); clocks();
    if (N == 0 && none) p = zt_time(0, &r, NULL, NULL);
    else p = zt_time(N, &r, timed, &DATA);
    VP_CHECK(CALLS == N, "the function is called as often as asked for");
    VP_CHECK(ASKED == 2, "the clock is read before and after");
    VP_CHECK(p == (void *)(uintptr_t)N, "the last call's result is returned");
    {
        struct timeval d;
        zt_diff_time(&d, &U[0].ru_utime, &U[1].ru_utime); VP_CHECK(tidy(&r.usr_time) && is_sum(&d, &r.usr_time, &cal.usr_time), "the user time it took, less the calibration");
        zt_diff_time(&d, &U[0].ru_stime, &U[1].ru_stime); VP_CHECK(tidy(&r.sys_time) && is_sum(&d, &r.sys_time, &cal.sys_time), "the system time it took, less the calibration");
    }
    VP_REACH();
}
