/* cfg.c - C30: configurations */
#include <zt.h>
#include <stdio.h>
#include <strings.h>
#include "vp.h"
/* the files under test as they are; the file they read is the test's text, and (in the verifier) no text is a decimal fraction */
static FILE *vp_fopen(const char *n, const char *m); static int vp_fclose(FILE *f); static int vp_fgetc(FILE *f); static int vp_ungetc(int c, FILE *f); static char *vp_fgets(char *b, int n, FILE *f);
#define fopen(n, m) vp_fopen(n, m)
#define fclose(f) vp_fclose(f)
#define fgetc(f) vp_fgetc(f)
#define ungetc(c, f) vp_ungetc(c, f)
#define fgets(b, n, f) vp_fgets(b, n, f)
#ifdef VP_ZTV
static double vp_strtod(const char *s, char **e) { *e = (char *)s; return 0; }
# define strtod(s, e) vp_strtod(s, e)
#endif
#include "zt_cfg/cfg_private.c"
#undef BUFMAX
#include "zt_cfg/cfg_ini.c"
#undef fopen
#undef fclose
#undef fgetc
#undef ungetc
#undef fgets
#undef strtod
static char TXT[2400]; static int TN, AT, OPEN, THERE; static char THE_FILE;
static FILE *vp_fopen(const char *n, const char *m) { VP_CHECK(n[0] == 'f' && n[1] == 0 && m[0] == 'r' && m[1] == 0, "the file named is opened for reading"); if (!THERE) return NULL; OPEN++; AT = 0; return (FILE *)&THE_FILE; }
static void good(FILE *f) { VP_CHECK(f == (FILE *)&THE_FILE && OPEN == 1, "an open file"); }
static int vp_fclose(FILE *f) { good(f); OPEN--; return 0; }
static int vp_fgetc(FILE *f) { good(f); return AT < TN ? (unsigned char)TXT[AT++] : EOF; }
static int vp_ungetc(int c, FILE *f) { good(f); if (c == EOF) return EOF; AT--; VP_CHECK(AT >= 0 && (unsigned char)TXT[AT] == c, "what was read is put back"); return c; }
static char *vp_fgets(char *b, int n, FILE *f) { int i = 0; good(f); while (i < n - 1 && AT < TN) { char c = TXT[AT++]; b[i++] = c; if (c == '\n') break; } if (!i) return NULL; b[i] = 0; return b; }
static void put(const char *s) { while (*s) TXT[TN++] = *s++; }
/* ---- what is expected of each of the four variables */
enum { NONE, INT, BOOL, STR, REF };
static struct { int k; long i; const char *s; int to; } V[4]; static long NUM[8];
static char *B[2] = { "a", "aa" }, *X[2] = { "x", "xx" };
static zt_cfg_ty *empty(void) { zt_cfg_ty *c; THERE = 1; OPEN = TN = AT = 0; c = zt_cfg_ini("f", 0); VP_CHECK(c != NULL && OPEN == 0, "an empty file is a configuration"); return c; }
static void look(zt_cfg_ty *c, int v) {
    int g = v, n, k; long i = 4242; int b = 77; char *s = NULL; double f = 0;
    for (n = 0; n < 5 && V[g].k == REF; n++) g = V[g].to;
    k = V[g].k;
    VP_CHECK(k != REF, "references end");
    VP_CHECK(zt_cfg_get(c, B[v >> 1], X[v & 1], &i, zt_cfg_int) == (k == INT ? (int)zt_cfg_int : -1) && i == (k == INT ? V[g].i : 4242), "an integer, or not one");
    VP_CHECK(zt_cfg_get(c, B[v >> 1], X[v & 1], &b, zt_cfg_bool) == (k == BOOL ? (int)zt_cfg_bool : -1) && b == (k == BOOL ? (int)V[g].i : 77), "a truth value, or not one");
    VP_CHECK(zt_cfg_get(c, B[v >> 1], X[v & 1], &f, zt_cfg_float) == -1, "not a fraction");
    n = zt_cfg_get(c, B[v >> 1], X[v & 1], &s, zt_cfg_string);
    if (k == STR) { VP_CHECK(n == zt_cfg_string && s != NULL, "a string"); VP_CHECK(strcmp(s, V[g].s) == 0, "the string set last"); }
    else VP_CHECK(n == -1 && s == NULL, "not a string");
}
static void lookall(zt_cfg_ty *c) { int v; for (v = 0; v < 4; v++) look(c, v); }
/* what a text set for a variable means */
static void mean(int v, const char *t) {
    int r = -1, g, n;
    if (!strcmp(t, "a.x")) r = 0; else if (!strcmp(t, "a.xx")) r = 1; else if (!strcmp(t, "aa.x")) r = 2; else if (!strcmp(t, "aa.xx")) r = 3;
    if (!strcmp(t, "yes") || !strcmp(t, "TRUE")) { V[v].k = BOOL; V[v].i = 1; }
    else if (!strcmp(t, "No")) { V[v].k = BOOL; V[v].i = 0; }
    else if (!strcmp(t, "0x1f")) { V[v].k = INT; V[v].i = 31; }
    else if (!strcmp(t, "-12")) { V[v].k = INT; V[v].i = -12; }
    else {
        V[v].k = STR; V[v].s = t;
        if (!strcmp(t, "'p q'") || !strcmp(t, "\"p q\"")) V[v].s = "p q";
        if (r >= 0 && V[r].k != NONE && r != v) {
            for (g = r, n = 0; n < 5 && V[g].k == REF && g != v; n++) g = V[g].to;
            if (g != v) { V[v].k = REF; V[v].to = r; }
        }
    }
}
#ifndef STEPS
# define STEPS 2
#endif
#ifdef KLIST
static const char *const T[] = { KLIST };
#else
static const char *const T[] = { "pq", "'p q'", "\"p q\"", "yes", "No", "TRUE", "0x1f", "-12", "", "a.x", "a.xx", "aa.x", "aa.xx", "a.z", ".", "c.x", "trust", "nope", "yes!", "falsehood", "12a" };
#endif
#ifdef KVARS
static unsigned variable(void) { static const unsigned char L[] = { KVARS }; return L[vp_case(0, sizeof L - 1)]; }
# define VARIABLE() VP_PICK(variable(), vp_range(0, 3))
#else
# define VARIABLE() vp_case(0, 3)
#endif
VP_ENTRY(h_store) {
    uint64_t live = vp_live(); zt_cfg_ty *c; int i, v; memset(V, 0, sizeof V);
    c = empty();
    for (i = 0; i < STEPS; i++) {
        v = (int)VARIABLE();
        if (vp_case(0, 1) == 0) {
            long n;
#ifdef KNUM
            static const long L[] = { KNUM }; n = VP_PICK(L[vp_case(0, sizeof L / sizeof *L - 1)], (long)vp_u64());
#else
            n = (long)vp_range(0, 198) - 99;
#endif
            VP_CHECK(zt_cfg_set(c, B[v >> 1], X[v & 1], &n, zt_cfg_int) > 0, "set"); V[v].k = INT; V[v].i = n;
        } else {
            const char *t = T[vp_case(0, sizeof T / sizeof *T - 1)]; char *p = (char *)t;
            VP_CHECK(zt_cfg_set(c, B[v >> 1], X[v & 1], &p, zt_cfg_string) > 0, "set"); mean(v, t);
        }
        lookall(c);
    }
    i = (int)vp_range(0, 1);
    VP_CHECK(zt_cfg_set(c, "a", "x", &i, zt_cfg_bool) == -1, "a truth value is set by a word");
    VP_CHECK(zt_cfg_set(c, "a", "x", &i, zt_cfg_ref) == -1, "a reference is set as a string");
    lookall(c);
    zt_cfg_close(c);
    VP_CHECK(vp_live() == live, "closing releases everything");
    VP_REACH();
}
/* one value in a file: KV characters of a set that makes integers, strings, comments and blanks */
#ifndef KV
# define KV 2
#endif
#ifndef KE
# define KE 0
#endif
static const char CH[] = "7p -;#'=\t";
VP_ENTRY(h_value) {
    uint64_t live = vp_live(); zt_cfg_ty *c; char val[16], *s = NULL; int i, k = (int)vp_fix(0, 6, KV), e = (int)vp_fix(0, 3, KE), b = 0, n = 0, q, isint; long num = 4242, w = 0;
    THERE = 1; OPEN = TN = AT = 0;
    put("; before\n\n[b]\n\tx=-3\n[a] # block\n");
    put(e & 2 ? "x=" : " x\t= ");
    for (i = 0; i < k; i++) { val[i] = CH[vp_case(0, sizeof CH - 2)]; TXT[TN++] = val[i]; }
    if (!(e & 1)) put("\n");
    c = zt_cfg_ini("f", 0);
    VP_CHECK(OPEN == 0, "the file is closed");
    /* the value: from the first character that is no blank to the last before a comment */
    while (b < k && (val[b] == ' ' || val[b] == '\t')) b++;
    if (b == k) VP_CHECK(c == NULL, "a line without a value is refused");
    else {
        for (q = b; q < k && val[q] != ';' && val[q] != '#'; q++) ;
        while (q > b && (val[q - 1] == ' ' || val[q - 1] == '\t')) q--;
        VP_CHECK(c != NULL, "accepted");
        VP_CHECK(zt_cfg_get(c, "b", "x", &num, zt_cfg_int) == zt_cfg_int && num == -3, "the other block's variable");
        VP_CHECK(zt_cfg_get(c, "a", "y", &num, zt_cfg_int) == -1 && zt_cfg_get(c, "Global", "x", &num, zt_cfg_int) == -1, "nothing else");
        n = b + (val[b] == '-' && q > b);
        for (isint = q > n, i = n; i < q; i++) { if (val[i] != '7') isint = 0; w = w * 10 + 7; }
        num = 4242;
        if (isint) VP_CHECK(zt_cfg_get(c, "a", "x", &num, zt_cfg_int) == zt_cfg_int && num == (n > b ? -w : w), "an integer");
        else {
            VP_CHECK(zt_cfg_get(c, "a", "x", &num, zt_cfg_int) == -1 && num == 4242, "no integer");
            VP_CHECK(zt_cfg_get(c, "a", "x", &s, zt_cfg_string) == zt_cfg_string, "a string");
            if (q > b && val[b] == '\'') { b++; if (q > b) q--; }           /* quotes are taken off */
            for (i = b; i < q; i++) VP_CHECK(s[i - b] == val[i], "the text given");
            VP_CHECK(s[q - b] == 0, "and no more");
        }
        zt_cfg_close(c);
    }
    VP_CHECK(vp_live() == live, "nothing leaks");
    VP_REACH();
}
/* lines and names at the limit of what is taken, and files that end anywhere */
#ifndef KF
# define KF 0
#endif
VP_ENTRY(h_limits) {
    uint64_t live = vp_live(), w = vp_fix(0, 5, KF); int i, n = (int)vp_case(1018, 1030); zt_cfg_ty *c; char *s;
    THERE = w != 5; OPEN = TN = AT = 0;
    put("[a]\nx=q\n");
    switch (w) {
        case 0: put("y="); for (i = 2; i < n; i++) TXT[TN++] = 'p'; put("\n"); break;
        case 1: put("y="); for (i = 2; i < n; i++) TXT[TN++] = 'p'; break;
        case 2: put("["); for (i = 0; i < n; i++) TXT[TN++] = 'p'; put("]\n y=1\n"); break;
        case 3: put("["); for (i = 0; i < n; i++) TXT[TN++] = 'p'; break;
        case 4: put("no value here\n"); break;
    }
    c = zt_cfg_ini("f", 0);
    VP_CHECK(OPEN == 0, "the file is closed");
    if (w >= 4) VP_CHECK(c == NULL, "refused");
    if (w < 2) VP_CHECK((c != NULL) == (n + (w == 0) <= 1023), "lines of up to 1023 characters are taken");
    if (w == 2 || w == 3) VP_CHECK(n <= 1022 ? c != NULL : n >= 1025 ? c == NULL : 1, "long block names are taken up to the limit");
    if (c) {
        VP_CHECK(zt_cfg_get(c, "a", "x", &s, zt_cfg_string) == zt_cfg_string && s[0] == 'q' && s[1] == 0, "what came before");
        if (w < 2) VP_CHECK(zt_cfg_get(c, "a", "y", &s, zt_cfg_string) == zt_cfg_string && strlen(s) == (size_t)n - 2, "the whole value");
        zt_cfg_close(c);
    }
    VP_CHECK(vp_live() == live, "nothing leaks");
    VP_REACH();
}
