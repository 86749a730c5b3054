/* libc.c - the string functions of libc, as C text the verifier executes (assumed equal to the C standard's) */
#include <stddef.h>
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) {
    for (; n; n--, a++, b++) { if (*a != *b || !*a) return (int)(unsigned char)*a - (int)(unsigned char)*b; } return 0; }
int memcmp(const void *x, const void *y, size_t n) {
    const unsigned char *a = x, *b = y; for (; n; n--, a++, b++) if (*a != *b) return (int)*a - (int)*b; return 0; }
int bcmp(const void *x, const void *y, size_t n) { return memcmp(x, y, n); }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return NULL; } }
char *strrchr(const char *s, int c) { const char *r = NULL; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) ; return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i; for (i = 0; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
void *memchr(const void *s, int c, size_t n) { const unsigned char *p = s; for (; n; n--, p++) if (*p == (unsigned char)c) return (void *)p; return NULL; }
void *malloc(size_t);
char *strdup(const char *s) { size_t n = strlen(s) + 1, i; char *p = malloc(n); for (i = 0; i < n; i++) p[i] = s[i]; return p; }
char *strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char *)h; if (!*h) return NULL; } }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *r) { size_t n = 0; while (s[n] && !strchr(r, s[n])) n++; return n; }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : NULL; }
char *strtok_r(char *s, const char *d, char **save) {
    char *e; if (!s) s = *save; s += strspn(s, d); if (!*s) { *save = s; return NULL; }
    e = s + strcspn(s, d); if (*e) *e++ = 0; *save = e; return s; }
int strcasecmp(const char *a, const char *b) {
    for (;; a++, b++) { int x = (unsigned char)*a, y = (unsigned char)*b; if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; if (x != y || !x) return x - y; } }
int strncasecmp(const char *a, const char *b, size_t n) {
    for (; n; n--, a++, b++) { int x = (unsigned char)*a, y = (unsigned char)*b; if (x >= 'A' && x <= 'Z') x += 32; if (y >= 'A' && y <= 'Z') y += 32; if (x != y || !x) return x - y; } return 0; }
char *strchrnul(const char *s, int c) { while (*s && *s != (char)c) s++; return (char *)s; }
long sysconf(int n) { return 4096; }
int atexit(void (*f)(void)) { return 0; }
/* printf family: the conversions d i u x X s c and %, flags - 0, width and precision (also *), lengths hh h l ll z j t */
#include <stdarg.h>
static void vp_o(char *d, size_t n, size_t *k, char c) { if (n && *k < n - 1) d[*k] = c; ++*k; }
int vsnprintf(char *d, size_t n, const char *f, va_list ap) {
    size_t k = 0;
    for (; *f; f++) {
        int left = 0, zero = 0, w = 0, p = -1, l = 0, neg = 0; char t[24]; int m = 0, i; unsigned long u = 0; const char *s = NULL; int len;
        if (*f != '%') { vp_o(d, n, &k, *f); continue; }
        f++;
        for (;; f++) { if (*f == '-') left = 1; else if (*f == '0') zero = 1; else break; }
        if (*f == '*') { w = va_arg(ap, int); if (w < 0) { left = 1; w = -w; } f++; } else while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0');
        if (*f == '.') { p = 0; f++; if (*f == '*') { p = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') p = p * 10 + (*f++ - '0'); }
        for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't') l = 2; else if (*f == 'h') l -= l < 2 ? 1 : 0; else break; }
        switch (*f) {
            case 'd': case 'i': { long v = l == 2 ? va_arg(ap, long) : va_arg(ap, int); if (l == -1) v = (short)v; if (l == -2) v = (signed char)v; neg = v < 0; u = neg ? 0ul - (unsigned long)v : (unsigned long)v; goto dec; }
            case 'u': u = l == 2 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (l == -1) u = (unsigned short)u; if (l == -2) u = (unsigned char)u;
            dec: do { t[m++] = '0' + u % 10; u /= 10; } while (u); break;
            case 'x': case 'X': u = l == 2 ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (l == -1) u = (unsigned short)u; if (l == -2) u = (unsigned char)u;
                do { t[m++] = (*f == 'x' ? "0123456789abcdef" : "0123456789ABCDEF")[u & 15]; u >>= 4; } while (u); break;
            case 'c': t[m++] = (char)va_arg(ap, int); p = -1; zero = 0; break;
            case 's': s = va_arg(ap, const char *); break;
            case '%': vp_o(d, n, &k, '%'); continue;
            default: { extern void vp_unsupported_format(void); vp_unsupported_format(); }
        }
        if (s) { for (len = 0; (p < 0 || len < p) && s[len]; len++) ; if (!left) for (i = len; i < w; i++) vp_o(d, n, &k, ' ');
                 for (i = 0; i < len; i++) vp_o(d, n, &k, s[i]); if (left) for (i = len; i < w; i++) vp_o(d, n, &k, ' '); continue; }
        if (p >= 0) zero = 0;
        len = (m > p ? m : p) + neg;
        if (!left && !zero) for (i = len; i < w; i++) vp_o(d, n, &k, ' ');
        if (neg) vp_o(d, n, &k, '-');
        if (!left && zero) for (i = len; i < w; i++) vp_o(d, n, &k, '0');
        for (i = m; i < p; i++) vp_o(d, n, &k, '0');
        while (m) vp_o(d, n, &k, t[--m]);
        if (left) for (i = len; i < w; i++) vp_o(d, n, &k, ' ');
    }
    if (n) d[k < n ? k : n - 1] = 0;
    return (int)k;
}
int snprintf(char *d, size_t n, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vsnprintf(d, n, f, ap); va_end(ap); return r; }
int sprintf(char *d, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vsnprintf(d, (size_t)-1 >> 1, f, ap); va_end(ap); return r; }
/* scanf from a string: white space, literals, %Ns, %Nd */
static int vp_space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static int vp_sscanf(const char *s, const char *f, va_list ap) {
    int got = 0;
    for (; *f; f++) {
        int w = 0, n;
        if (vp_space(*f)) { while (vp_space(*s)) s++; continue; }
        if (*f != '%') { if (*s != *f) return *s || got ? got : -1; s++; continue; }
        f++;
        while (*f >= '0' && *f <= '9') w = w * 10 + (*f++ - '0');
        while (vp_space(*s)) s++;
        if (!*s) return got ? got : -1;
        if (*f == 's') { char *d = va_arg(ap, char *); for (n = 0; (!w || n < w) && *s && !vp_space(*s); n++) *d++ = *s++; *d = 0; got++; }
        else { extern void vp_unsupported_format(void); vp_unsupported_format(); }
    }
    return got;
}
int sscanf(const char *s, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vp_sscanf(s, f, ap); va_end(ap); return r; }
int __isoc99_sscanf(const char *s, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vp_sscanf(s, f, ap); va_end(ap); return r; }
int __isoc23_sscanf(const char *s, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vp_sscanf(s, f, ap); va_end(ap); return r; }
/* numbers in text: white space, sign, prefix, digits; out of range gives the nearest (errno is not modelled) */
static unsigned long vp_strto(const char *s, char **end, int base, int *neg, int *over) {
    const char *p = s, *d; unsigned long v = 0;
    *neg = *over = 0;
    while (vp_space(*p)) p++;
    if (*p == '-') { *neg = 1; p++; } else if (*p == '+') p++;
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && ((p[2] >= '0' && p[2] <= '9') || (p[2] >= 'a' && p[2] <= 'f') || (p[2] >= 'A' && p[2] <= 'F'))) { p += 2; base = 16; }
    else if (base == 0) base = p[0] == '0' ? 8 : 10;
    for (d = p;; p++) {
        int c = *p, x;
        if (c >= '0' && c <= '9') x = c - '0'; else if (c >= 'a' && c <= 'z') x = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') x = c - 'A' + 10; else break;
        if (x >= base) break;
        if (p - d >= 9) { if (__builtin_mul_overflow(v, (unsigned long)base, &v) || __builtin_add_overflow(v, (unsigned long)x, &v)) *over = 1; }
        else v = v * base + x;          /* nine digits fit in any base up to 36 */
    }
    if (end) *end = (char *)(p == d ? s : p);
    return v;
}
long strtol(const char *s, char **end, int base) {
    int neg, over; unsigned long v = vp_strto(s, end, base, &neg, &over);
    if (neg) return over || v > 0x8000000000000000ul ? (long)0x8000000000000000ul : (long)-v;
    return over || v > 0x7ffffffffffffffful ? 0x7fffffffffffffffl : (long)v;
}
int atoi(const char *s) { return (int)strtol(s, NULL, 10); }
long atol(const char *s) { return strtol(s, NULL, 10); }
unsigned int ntohl(unsigned int x) { return __builtin_bswap32(x); }
unsigned int htonl(unsigned int x) { return __builtin_bswap32(x); }
/* as in C23: binary constants too */
long __isoc23_strtol(const char *s, char **end, int base) {
    const char *p = s; char *e; long v;
    while (vp_space(*p)) p++;
    if (*p == '-' || *p == '+') p++;
    if ((base == 0 || base == 2) && p[0] == '0' && (p[1] == 'b' || p[1] == 'B') && (p[2] == '0' || p[2] == '1')) { extern void vp_unsupported_format(void); vp_unsupported_format(); }
    v = strtol(s, &e, base);
    if (end) *end = e;
    return v;
}
