/* opts.c - C29: command line options */
#include <zt.h>
#include <zt_opts.h>
#include <errno.h>
#include "vp.h"
#ifndef KL1
# define KL1 4
#endif
#ifndef KL2
# define KL2 2
#endif
#ifndef KL3
# define KL3 1
#endif
#ifndef KN
# define KN 1
#endif
#ifndef KARGC
# define KARGC 3
#endif
enum { FLAG, TAKE, UNKNOWN, MISSING };
static struct { int kind, argn, defn; char *value; } EV[40]; static int EN, AT, RET, STOP;
static char *AV[6]; static int AC; static zt_opt_def_t *D;
static int fail(int code, char *fmt, ...) {
    VP_CHECK(code == EINVAL, "reported as an invalid argument");
    VP_CHECK(AT < EN && (EV[AT].kind == UNKNOWN || EV[AT].kind == MISSING), "only unknown options and missing values are reported");
    AT++;
    return 0;
}
static void event(int kind, int argn, int defn, int *argc, char **argv, zt_opt_def_t *def) {
    VP_CHECK(argv == AV && def == D && argc == &AC, "the callback gets the arguments and the definitions");
    VP_CHECK(AT < EN && EV[AT].kind == kind && EV[AT].argn == argn && EV[AT].defn == defn, "the callback of the option that is next on the command line is called");
}
static int flag(int argn, int defn, int *argc, char **argv, zt_opt_def_t *def, zt_opt_error error) { event(FLAG, argn, defn, argc, argv, def); AT++; return 0; }
static int take(int argn, int defn, int *argc, char **argv, zt_opt_def_t *def, zt_opt_error error) {
    int used = 77; char *v, *want;
    event(TAKE, argn, defn, argc, argv, def); want = EV[AT++].value;
    v = zt_opt_get_value(argn, defn, argv, def, &used, error);
    VP_CHECK(v == want, "the value is the one behind the option, or the next argument");
    VP_CHECK(used == 0 || used == 1, "at most one argument is taken");
    return v ? used : -1;
}
static zt_opt_def_t DEFS[] = { { 'a', ZT_OPT_NLO, NULL, flag, NULL, "" }, { 'v', ZT_OPT_NLO, "x", take, NULL, "" }, { ZT_OPT_NSO, "lo", "x", take, NULL, "" },
                               { 'b', "fl", NULL, flag, NULL, "" }, { '7', "f", "x", take, NULL, "" }, { ZT_OPT_END() } };
/* ---- what the arguments mean */
static void add(int kind, int argn, int defn, char *value) { EV[EN].kind = kind; EV[EN].argn = argn; EV[EN].defn = defn; EV[EN].value = value; EN++; }
static int same(const char *a, int n, const char *b) { int i; for (i = 0; i < n; i++) if (!b[i] || a[i] != b[i]) return 0; return b[n] == 0; }
static void meaning(void) {
    int i, d, n, k; RET = 0; STOP = AC;
    for (i = 1; i < AC; i++) {
        char *p = AV[i];
        if (p[0] != '-') { STOP = i; return; }
        if (p[1] == '-') {
            p += 2; for (n = 0; p[n] && p[n] != '='; n++) ;
            d = n == 0 ? -1 : same(p, n, "lo") ? 2 : same(p, n, "fl") ? 3 : same(p, n, "f") ? 4 : -1;
            if (d < 0) { add(UNKNOWN, i, 0, NULL); continue; }
            if (d == 3) { add(FLAG, i, d, NULL); continue; }
            if (p[n] == '=') { add(TAKE, i, d, p + n + 1); continue; }
            add(TAKE, i, d, AV[i + 1]);
            if (!AV[i + 1]) { add(MISSING, i, d, NULL); RET = -1; return; }
            i++; continue;
        }
        k = 1;
        do {
            d = p[k] == 'a' ? 0 : p[k] == 'v' ? 1 : p[k] == 'b' ? 3 : p[k] == '7' ? 4 : -1;
            if (d < 0) { add(UNKNOWN, i, 0, NULL); break; }
            k++;
            if (d == 0 || d == 3) { add(FLAG, i, d, NULL); continue; }
            if (p[k]) { add(TAKE, i, d, p[k] == '=' ? p + k + 1 : p + k); break; }
            add(TAKE, i, d, AV[i + 1]);
            if (!AV[i + 1]) { add(MISSING, i, d, NULL); RET = -1; return; }
            i++; break;
        } while (p[k]);
    }
    STOP = i;
}
static char *text(int n) { char *s = malloc((size_t)n + 1); int i; for (i = 0; i < n; i++) { s[i] = VP_PICK((char)vp_u8(), "----=avb7lofx.\xff"[vp_case(0, 15)]); VP_ASSUME(s[i] != 0); } s[n] = 0; return s; }
static void novalidate(zt_opt_def_t *args, zt_opt_error error) { }
VP_ENTRY(h_parse) {
    int i, r, n = VP_PICK(KARGC, (int)vp_case(1, 4)), got; static char prog[] = "p";
    EN = AT = 0; D = DEFS; AC = n; AV[0] = prog; for (i = 1; i < 6; i++) AV[i] = NULL;
    if (n > 1) AV[1] = text(VP_PICK(KL1, (int)vp_case(0, 7)));
    if (n > 2) AV[2] = text(VP_PICK(KL2, (int)vp_case(0, 7)));
    if (n > 3) AV[3] = text(VP_PICK(KL3, (int)vp_case(0, 7)));
    meaning();
    r = zt_opt_process_args(&AC, AV, DEFS, VP_PICK(novalidate, NULL), fail);
    got = AC;
    VP_CHECK(AT == EN, "every option on the command line is handled");
    VP_CHECK(r == RET, "0, or an error where a value is missing");
    if (RET == 0) VP_CHECK(got == STOP, "processing stops at the first argument that is not an option");
    for (i = 1; i < n; i++) free(AV[i]);
    VP_REACH();
}
/* ---- the values */
static int FAILS; static int count(int code, char *fmt, ...) { FAILS++; return 0; }
VP_ENTRY(h_values) {
    static const char *word[] = { "t", "T", "y", "Y", "true", "TRUE", "Yes", "f", "F", "n", "N", "false", "False", "nO", "tr", "truee", "x", "1", "yesno" };
    static zt_opt_def_t d[6]; static char dash_l[] = "-l", dash_b[] = "-b", bad[] = "12z", dash_s[] = "-s", dash_q[] = "-qq", dash_a[] = "-a", *av[14]; int ac = 1, w = (int)vp_case(0, 18), b = 5, q = (int)vp_range(0, 1000), q0 = q, m = VP_PICK(KN, (int)vp_case(0, 2)), i, wrong = (int)vp_case(0, 1);
    long l = 4242, v = (long)vp_range(0, VP_PICK(99, 1999)) - VP_PICK(0, 1000); char num[32], *s = NULL, **arr = NULL, t1[3], t2[2];
    d[0] = (zt_opt_def_t){ 'l', "long", "n", zt_opt_long, &l, "" }; d[1] = (zt_opt_def_t){ 'b', NULL, "n", zt_opt_bool_int, &b, "" }; d[2] = (zt_opt_def_t){ 's', NULL, "n", zt_opt_string, &s, "" };
    d[3] = (zt_opt_def_t){ 'q', NULL, NULL, zt_opt_flag_int, &q, "" }; d[4] = (zt_opt_def_t){ 'a', "arr", NULL, zt_opt_string_array, &arr, "" }; memset(&d[5], 0, sizeof d[5]);
    t1[0] = (char)vp_u8(); VP_ASSUME(t1[0] != 0); t1[1] = (char)vp_u8(); t1[2] = 0; t2[0] = (char)vp_u8(); t2[1] = 0;
    { unsigned long u = v < 0 ? -(unsigned long)v : (unsigned long)v; int k = 0, j; char r[24]; do { r[k++] = (char)('0' + u % 10); u /= 10; } while (u); j = 0; if (v < 0) num[j++] = '-'; while (k) num[j++] = r[--k]; num[j] = 0; }
    FAILS = 0; av[0] = dash_l; av[ac++] = dash_l; av[ac++] = wrong ? bad : num; av[ac++] = dash_b; av[ac++] = (char *)word[w]; av[ac++] = dash_s; av[ac++] = t1; av[ac++] = dash_q;
    for (i = 0; i < m; i++) { av[ac++] = dash_a; av[ac++] = i ? t2 : t1; }
    av[ac] = NULL;
    i = ac;
    if (w < 14) {
        VP_CHECK(zt_opt_process_args(&ac, av, d, VP_PICK(novalidate, NULL), count) == 0 && ac == i, "every argument is used");
        VP_CHECK(b == (w < 7), "the truth value the word means");
        VP_CHECK(FAILS == wrong, "only what is not a number is reported");
        if (!wrong) VP_CHECK(l == v, "the number");
        VP_CHECK(q == q0 + 2, "each occurrence of a flag counts");
        VP_CHECK(s != t1 && strcmp(s, t1) == 0, "a copy of the string"); free(s);
        if (m == 0) VP_CHECK(arr == NULL, "no strings");
        else { for (i = 0; i < m; i++) { VP_CHECK(strcmp(arr[i], i ? t2 : t1) == 0, "the strings in their order"); free(arr[i]); } VP_CHECK(arr[m] == NULL, "ended by NULL"); free(arr); }
    } else {
        int used = zt_opt_bool_int(3, 1, &ac, av, d, count);
        VP_CHECK(used == 0 && FAILS == 1 && b == 5, "another word is refused and stores nothing");
    }
    VP_REACH();
}
/* ---- the definitions themselves */
static int codes(int code, char *fmt, ...) { VP_CHECK(code == EINVAL, "reported as invalid"); FAILS++; return 0; }
VP_ENTRY(h_validate) {
    static char *name[] = { NULL, "x", "xy" }; static char x2[] = "x"; zt_opt_def_t d[3]; int i, j, want = 0, n = (int)vp_case(0, 2), l[2];
    memset(d, 0, sizeof d);
    for (i = 0; i < n; i++) {
        d[i].sopt = (char)vp_u8(); l[i] = (int)vp_case(0, 2); d[i].lopt = i && l[i] == 1 ? x2 : name[l[i]]; d[i].help = vp_case(0, 1) ? "h" : NULL; d[i].cb = zt_opt_null;
        if (d[i].sopt == ZT_OPT_NSO && !l[i]) want++;
        if (!d[i].help) want++;
        if (d[i].sopt != ZT_OPT_NSO && !((d[i].sopt >= '0' && d[i].sopt <= '9') || (d[i].sopt >= 'A' && d[i].sopt <= 'Z') || (d[i].sopt >= 'a' && d[i].sopt <= 'z'))) want++;
    }
    for (i = 0; i < n; i++) for (j = 0; j < n; j++) if (i != j) { if (d[i].sopt != ZT_OPT_NSO && d[i].sopt == d[j].sopt) want++; if (l[i] && l[i] == l[j]) want++; }
    FAILS = 0;
    zt_opt_validate_default(d, codes);
    VP_CHECK(FAILS == want, "each thing that is wrong with the definitions is reported, and nothing else");
    VP_REACH();
}
VP_ENTRY(h_missing) {
    static zt_opt_def_t d[7]; static char o[3], l[4] = "--x"; char *av[3] = { o, o, NULL }; int k = (int)vp_case(0, 4), ac = 2, b = 5; long n = 7; intmax_t m = 8; char *s = NULL, **arr = NULL;
    memset(d, 0, sizeof d);
    d[0] = (zt_opt_def_t){ 'a', NULL, "", zt_opt_long, &n, "" }; d[1] = (zt_opt_def_t){ 'b', NULL, "", zt_opt_bool_int, &b, "" }; d[2] = (zt_opt_def_t){ 'c', NULL, "", zt_opt_string, &s, "" };
    d[3] = (zt_opt_def_t){ 'd', NULL, "", zt_opt_string_array, &arr, "" }; d[4] = (zt_opt_def_t){ 'e', NULL, "", zt_opt_intmax, &m, "" };
    o[0] = '-'; o[1] = (char)('a' + k); o[2] = 0; d[k].lopt = &l[2]; if (vp_case(0, 1)) av[1] = l;
    FAILS = 0;
    VP_CHECK(zt_opt_process_args(&ac, av, d, VP_PICK(novalidate, NULL), count) < 0 && FAILS == 1, "a missing value is reported, and is an error");
    VP_CHECK(b == 5 && n == 7 && m == 8 && s == NULL && arr == NULL, "and nothing is stored");
    VP_REACH();
}
