/* Plain C models of the libc functions the harnessed code calls.  They are
 * only linked into the symbolic build; replays use the system libc. */
#include <stddef.h>
#include <stdarg.h>
#include <limits.h>
typedef struct _IO_FILE FILE;
void *malloc(size_t);
void free(void *);
#define W __attribute__((weak))
W size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
W size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
W char *strcpy(char *d, const char *s) { size_t i = 0; while ((d[i] = s[i])) i++; return d; }
W char *stpcpy(char *d, const char *s) { while ((*d = *s)) d++, s++; return d; }
W char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
W char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
W char *strncat(char *d, const char *s, size_t n) { char *p = d + strlen(d); size_t i; for (i = 0; i < n && s[i]; i++) p[i] = s[i]; p[i] = 0; return d; }
W int strcmp(const char *a, const char *b)
{ for (;; a++, b++) { unsigned char x = *(const unsigned char *)a, y = *(const unsigned char *)b; if (x != y) return (int)x - (int)y; if (!x) return 0; } }
W int strncmp(const char *a, const char *b, size_t n)
{ for (; n; a++, b++, n--) { unsigned char x = *(const unsigned char *)a, y = *(const unsigned char *)b; if (x != y) return (int)x - (int)y; if (!x) return 0; } return 0; }
static int lc(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
W int strcasecmp(const char *a, const char *b)
{ for (;; a++, b++) { int x = lc(*(const unsigned char *)a), y = lc(*(const unsigned char *)b); if (x != y) return x - y; if (!x) return 0; } }
W int strncasecmp(const char *a, const char *b, size_t n)
{ for (; n; a++, b++, n--) { int x = lc(*(const unsigned char *)a), y = lc(*(const unsigned char *)b); if (x != y) return x - y; if (!x) return 0; } return 0; }
W char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
W char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
W char *strstr(const char *h, const char *n)
{ size_t i; if (!*n) return (char *)h; for (; *h; h++) { for (i = 0; n[i] && h[i] == n[i]; i++) ; if (!n[i]) return (char *)h; } return 0; }
W char *strcasestr(const char *h, const char *n)
{ size_t i; if (!*n) return (char *)h; for (; *h; h++) { for (i = 0; n[i] && lc((unsigned char)h[i]) == lc((unsigned char)n[i]); i++) ; if (!n[i]) return (char *)h; } return 0; }
W char *strpbrk(const char *s, const char *a) { for (; *s; s++) if (strchr(a, *s)) return (char *)s; return 0; }
W size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
W size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
W int memcmp(const void *a, const void *b, size_t n)
{ const unsigned char *x = a, *y = b; size_t i; for (i = 0; i < n; i++) if (x[i] != y[i]) return (int)x[i] - (int)y[i]; return 0; }
W int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
W void *memchr(const void *a, int c, size_t n)
{ const unsigned char *x = a; size_t i; for (i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void *)(x + i); return 0; }
W void *memrchr(const void *a, int c, size_t n)
{ const unsigned char *x = a; size_t i; for (i = n; i > 0; i--) if (x[i-1] == (unsigned char)c) return (void *)(x + i - 1); return 0; }
W void *memmem(const void *h, size_t hl, const void *n, size_t nl)
{ size_t i; if (!nl) return (void *)h; if (hl < nl) return 0; for (i = 0; i + nl <= hl; i++) if (!memcmp((const char *)h + i, n, nl)) return (void *)((const char *)h + i); return 0; }
W char *strdup(const char *s) { char *p = malloc(strlen(s) + 1); return strcpy(p, s); }
W char *strndup(const char *s, size_t n) { size_t l = strnlen(s, n), i; char *p = malloc(l + 1); for (i = 0; i < l; i++) p[i] = s[i]; p[l] = 0; return p; }
W int tolower(int c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
W int toupper(int c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
W int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
W int isdigit(int c) { return c >= '0' && c <= '9'; }
W int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
W int isalnum(int c) { return isalpha(c) || isdigit(c); }
W int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
W int abs(int x) { return x < 0 ? -x : x; }
W long strtol(const char *s, char **e, int base)
{
  const char *p = s, *st; int neg = 0; long v = 0; int ovf = 0;
  while (isspace((unsigned char)*p)) p++;
  if (*p == '-') { neg = 1; p++; } else if (*p == '+') p++;
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { base = 16; p += 2; }
  else if (base == 0 && *p == '0') base = 8;
  else if (base == 0) base = 10;
  st = p;
  for (;; p++) {
    int c = (unsigned char)*p, d;
    if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break;
    if (d >= base) break;
    if (v > (LONG_MAX - d) / base) ovf = 1; else v = v * base + d;
  }
  if (e) *e = (char *)(p == st ? s : p);
  if (ovf) return neg ? LONG_MIN : LONG_MAX;
  return neg ? -v : v;
}
W unsigned long strtoul(const char *s, char **e, int b) { return (unsigned long)strtol(s, e, b); }
W long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
W long __isoc23_strtol(const char *s, char **e, int b) { return strtol(s, e, b); }
W unsigned long __isoc23_strtoul(const char *s, char **e, int b) { return (unsigned long)strtol(s, e, b); }
W int atoi(const char *s) { return (int)strtol(s, 0, 10); }
W long atol(const char *s) { return strtol(s, 0, 10); }
void *memcpy(void *, const void *, size_t);
#define copy_bytes(d, s, n) memcpy(d, s, n)
/* A stable merge from the bottom up: a list in any order costs n log n. */
W void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
  size_t w, i, j, k, mid, end, o; char *b = base, *t;
  if (n < 2) return;
  t = malloc(n * sz);
  for (w = 1; w < n; w *= 2)
    for (i = 0; i + w < n; i += 2 * w) {
      mid = i + w; end = mid + w < n ? mid + w : n;
      if (cmp(b + (mid - 1) * sz, b + mid * sz) <= 0) continue;
      copy_bytes(t, b + i * sz, (end - i) * sz);
      for (j = 0, k = mid - i, o = i; o < end; o++)
        if (j < mid - i && (k >= end - i || cmp(t + j * sz, t + k * sz) <= 0)) copy_bytes(b + o * sz, t + j++ * sz, sz);
        else copy_bytes(b + o * sz, t + k++ * sz, sz);
    }
  free(t);
}
/* formatted output: %d %i %u %ld %lu %lld %llu %x %lx %c %s %p %% with 0/width/-/.prec */
static size_t emit(char *o, size_t cap, size_t n, char c) { if (o && n + 1 < cap) o[n] = c; return n + 1; }
W int vsnprintf(char *o, size_t cap, const char *f, va_list ap)
{
  size_t n = 0;
  for (; *f; f++) {
    if (*f != '%') { n = emit(o, cap, n, *f); continue; }
    f++;
    int zero = 0, left = 0, width = 0, prec = -1, lng = 0;
    for (;; f++) { if (*f == '0') zero = 1; else if (*f == '-') left = 1; else if (*f == '+' || *f == ' ' || *f == '#') ; else break; }
    if (*f == '*') { width = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j') { if (*f != 'h') lng = 1; f++; }
    char buf[32]; int bl = 0, neg = 0; unsigned long u; unsigned base = 10; const char *s;
    switch (*f) {
    case 'd': case 'i': { long v = lng ? va_arg(ap, long) : va_arg(ap, int); neg = v < 0; u = neg ? 0 - (unsigned long)v : (unsigned long)v; goto num; }
    case 'x': case 'X': base = 16; u = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned int); goto num;
    case 'o': base = 8; u = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned int); goto num;
    case 'p': base = 16; u = va_arg(ap, unsigned long); goto num;
    case 'u': u = lng ? va_arg(ap, unsigned long) : va_arg(ap, unsigned int);
    num: {
      do { unsigned d = u % base; buf[bl++] = d < 10 ? '0' + d : (*f == 'X' ? 'A' : 'a') + d - 10; u /= base; } while (u);
      if (prec >= 0) { while (bl < prec && bl < 30) buf[bl++] = '0'; zero = 0; }
      int tot = bl + neg;
      if (!left && !zero) for (; tot < width; tot++) n = emit(o, cap, n, ' ');
      if (neg) n = emit(o, cap, n, '-');
      if (!left && zero) for (; tot < width; tot++) n = emit(o, cap, n, '0');
      { int k; for (k = bl - 1; k >= 0; k--) n = emit(o, cap, n, buf[k]); }
      if (left) for (; tot < width; tot++) n = emit(o, cap, n, ' ');
      break; }
    case 'c': n = emit(o, cap, n, (char)va_arg(ap, int)); break;
    case 's': {
      int l = 0; s = va_arg(ap, const char *); if (!s) s = "(null)";
      while ((prec < 0 || l < prec) && s[l]) l++;
      if (!left) { int k; for (k = l; k < width; k++) n = emit(o, cap, n, ' '); }
      { int k; for (k = 0; k < l; k++) n = emit(o, cap, n, s[k]); }
      if (left) { int k; for (k = l; k < width; k++) n = emit(o, cap, n, ' '); }
      break; }
    case '%': n = emit(o, cap, n, '%'); break;
    case 0: f--; break;
    default: break;
    }
  }
  if (o && cap) o[n < cap ? n : cap - 1] = 0;
  return (int)n;
}
W int vsprintf(char *o, const char *f, va_list ap) { return vsnprintf(o, (size_t)1 << 40, f, ap); }
W int snprintf(char *o, size_t cap, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vsnprintf(o, cap, f, ap); va_end(ap); return r; }
W int sprintf(char *o, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vsnprintf(o, (size_t)1 << 40, f, ap); va_end(ap); return r; }
/* diagnostics: discarded, after every text they name has been read */
static void touch(const char *f, va_list ap)
{
  for (; *f; f++) {
    int prec = -1, lng = 0;
    if (*f != '%') continue;
    for (f++; *f == '0' || *f == '-' || *f == '+' || *f == ' ' || *f == '#'; f++) ;
    if (*f == '*') { (void) va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') f++;
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    while (*f == 'l' || *f == 'z' || *f == 'h' || *f == 'j') { if (*f != 'h') lng = 1; f++; }
    switch (*f) {
    case 'd': case 'i': case 'x': case 'X': case 'o': case 'u': if (lng) (void) va_arg(ap, long); else (void) va_arg(ap, int); break;
    case 'c': (void) va_arg(ap, int); break;
    case 'p': (void) va_arg(ap, void *); break;
    case 'e': case 'f': case 'g': (void) va_arg(ap, double); break;
    case 's': { const char *s = va_arg(ap, const char *); int l = 0; if (s) while ((prec < 0 || l < prec) && s[l]) l++; break; }
    case 0: return;
    }
  }
}
W int printf(const char *f, ...) { va_list ap; va_start(ap, f); touch(f, ap); va_end(ap); return 0; }
W int fprintf(FILE *o, const char *f, ...) { va_list ap; va_start(ap, f); touch(f, ap); va_end(ap); return 0; }
W int vfprintf(FILE *o, const char *f, va_list ap) { touch(f, ap); return 0; }
W int puts(const char *s) { while (*s) s++; return 0; }
W int putchar(int c) { return c; }
W int fputc(int c, FILE *f) { return c; }
W int putc(int c, FILE *f) { return c; }
W int fputs(const char *s, FILE *f) { while (*s) s++; return 0; }
W size_t fwrite(const void *p, size_t s, size_t n, FILE *f) { return n; }
W int fflush(FILE *f) { return 0; }
W void perror(const char *s) { if (s) while (*s) s++; }
W char *strerror(int e) { return "error"; }
W char *getenv(const char *n) { return 0; }
/* %d %u %x %n %c %s, field widths, literal text, white space */
W int vsscanf(const char *s, const char *f, va_list ap)
{
  const char *p = s; int done = 0;
  for (; *f; f++) {
    if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*p)) p++; continue; }
    if (*f != '%') { if (*p != *f) return done; p++; continue; }
    f++;
    int width = 0, lng = 0, skip = 0;
    if (*f == '*') { skip = 1; f++; }
    while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    while (*f == 'l' || *f == 'h') { if (*f == 'l') lng++; f++; }
    if (*f == 'n') { *va_arg(ap, int *) = (int)(p - s); continue; }
    if (*f == 'c') { int k, w = width ? width : 1; char *o = skip ? 0 : va_arg(ap, char *); for (k = 0; k < w; k++) { if (!*p) return done ? done : -1; if (o) o[k] = *p; p++; } if (!skip) done++; continue; }
    while (isspace((unsigned char)*p)) p++;
    if (!*p) return done ? done : -1;
    if (*f == 's') { char *o = skip ? 0 : va_arg(ap, char *); int k = 0; while (*p && !isspace((unsigned char)*p) && (!width || k < width)) { if (o) o[k] = *p; k++; p++; } if (o) o[k] = 0; if (!skip) done++; continue; }
    { int base = *f == 'x' || *f == 'X' ? 16 : 10, neg = 0, k = 0, any = 0; long v = 0;
      if (!width) width = 1 << 30;
      if (k < width && (*p == '-' || *p == '+')) { neg = *p == '-'; p++; k++; }
      for (; k < width; k++, p++) {
        int c = (unsigned char)*p, d;
        if (c >= '0' && c <= '9') d = c - '0'; else if (base == 16 && c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (base == 16 && c >= 'A' && c <= 'F') d = c - 'A' + 10; else break;
        any = 1; v = v * base + d;
      }
      if (!any) return done;
      if (neg) v = -v;
      if (!skip) { if (lng) *va_arg(ap, long *) = v; else *va_arg(ap, int *) = (int)v; done++; }
    }
  }
  return done;
}
W int sscanf(const char *s, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vsscanf(s, f, ap); va_end(ap); return r; }
W int __isoc99_sscanf(const char *s, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vsscanf(s, f, ap); va_end(ap); return r; }
W int __isoc23_sscanf(const char *s, const char *f, ...) { va_list ap; int r; va_start(ap, f); r = vsscanf(s, f, ap); va_end(ap); return r; }
/* clock and process identity where a harness does not model them: fixed */
W int gettimeofday(void *tv, void *tz) { ((long *) tv)[0] = 1000000000; ((long *) tv)[1] = 5; return 0; }
W int getpid(void) { return 4242; }
W void bzero(void *p, size_t n) { size_t i; for (i = 0; i < n; i++) ((char *) p)[i] = 0; }
