// Small libc for symbolic execution (byte loops the solver can follow).
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>
#include <limits.h>
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1; return 0; }
void *memchr(const void *a, int c, size_t n) { const unsigned char *x = a; for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void *)(x + i); return 0; }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (unsigned char)a[i] - (unsigned char)b[i]; if (!a[i]) return 0; } return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strstr(const char *h, const char *n) { size_t k = strlen(n); for (;; h++) { if (strncmp(h, n, k) == 0) return (char *)h; if (!*h) return 0; } }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int strncasecmp(const char *a, const char *b, size_t n) { for (size_t i = 0; i < n; i++) { int x = tolower((unsigned char)a[i]), y = tolower((unsigned char)b[i]); if (x != y) return x - y; if (!x) return 0; } return 0; }
int abs(int x) { return x < 0 ? -x : x; }
long strtol(const char *s, char **end, int base) { long v = 0; int neg = 0; const char *p = s; while (isspace((unsigned char)*p)) p++; if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
    if (base == 0) base = 10; const char *q = p;
    for (;;) { int d; char c = *p; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break; if (d >= base) break; v = v > (LONG_MAX - d) / base ? LONG_MAX : v * base + d; p++; }
    if (end) *end = (char *)(p == q ? s : p); return neg ? -v : v; }
int atoi(const char *s) { return (int)strtol(s, 0, 10); }
static void sw(char *d, const char *a, const char *b, size_t n) { (void)d; (void)a; (void)b; (void)n; }
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
    char *b = base; char t[256];
    for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0; j--) for (size_t k = 0; k < sz; k++) { char c = b[(j - 1) * sz + k]; b[(j - 1) * sz + k] = b[j * sz + k]; b[j * sz + k] = c; }
    (void)t; sw(0, 0, 0, 0); }
int vsnprintf(char *dst, size_t n, const char *f, va_list ap) {
    size_t k = 0; char tmp[24];
#define PUT(c) do { if (k + 1 < n) dst[k] = (c); k++; } while (0)
    for (; *f; f++) {
        if (*f != '%') { PUT(*f); continue; }
        f++; int prec = -1, lng = 0;
        if (*f == '.') { f++; if (*f == '*') { prec = va_arg(ap, int); f++; } else { prec = 0; while (isdigit(*f)) prec = prec * 10 + (*f++ - '0'); } }
        while (*f == 'l' || *f == 'z') { lng++; f++; }
        switch (*f) {
        case 's': { const char *s = va_arg(ap, const char *); for (int i = 0; (prec < 0 || i < prec) && s[i]; i++) PUT(s[i]); break; }
        case 'c': { char c = (char)va_arg(ap, int); PUT(c); break; }
        case 'd': case 'u': case 'i': { long v; if (lng) v = va_arg(ap, long); else v = va_arg(ap, int); unsigned long u = v; if (*f != 'u' && v < 0) { PUT('-'); u = -(unsigned long)v; } if (*f == 'u' && !lng) u = (unsigned)v; int i = 0; do { tmp[i++] = '0' + u % 10; u /= 10; } while (u); while (i) { i--; PUT(tmp[i]); } break; }
        case '%': PUT('%'); break;
        default: PUT('?'); (void)va_arg(ap, long); break;
        }
    }
    if (n) dst[k < n ? k : n - 1] = 0;
    return (int)k;
}
int snprintf(char *dst, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(dst, n, f, ap); va_end(ap); return r; }
