#include "vh.h"
#include "mairix.h"
#ifndef NP
#define NP 3
#endif
#ifndef NS
#define NS 3
#endif
/* documented semantics, by structural recursion over the pattern; branch-light */
static int m(const char *p, const char *s)
{
  int i;
  if (!*p) return !*s;
  if (*p == '*') {
    if (p[1] == '*') { for (i=0;;i++) { if (m(p+2, s+i)) return 1; if (!s[i]) return 0; } }
    for (i=0;;i++) { if (m(p+1, s+i)) return 1; if (!s[i] || s[i]=='/') return 0; }
  }
  if (!*s) return 0;
  if (*p == '?') return m(p+1,s+1);
  if (*p == '[') {
    unsigned char c = *s; int hit = 0, prev = -1, first = 1;
    for (p++; *p && (first || *p != ']'); first = 0) {
      unsigned char a = *p;
      if (a == '-' && prev >= 0 && p[1] && p[1] != ']') {
        unsigned char b = p[1];
        hit = vor(hit, vor(vand(c >= prev, c <= b), vand(c >= b, c <= prev)));
        prev = -1; p += 2;
      } else { hit = vor(hit, c == a); prev = a; p++; }
    }
    if (*p) p++;
    return vand(hit, m(p, s+1));
  }
  return vand(*p == *s, m(p+1,s+1));
}
static void check(const char *p, const char *s)
{
  struct globber *g = make_globber(p);
  int r = is_glob_match(g, s), e = m(p, s);
  CHECK(!!r == !!e, "glob match agrees with the documented wildcard semantics");
  OBSERVE(!!r);
  if (r) COVER("match"); else COVER("no match");
  free_globber(g);
}
#if defined(CLASS)
/* a character class of 1..NP members between fixed surroundings */
void harness(void)
{
  int np = CHOOSE(1,NP), closed = CHOOSE(0,1), tail = CHOOSE(0, 2), i, n = 0;
  char p[NP+8], *s = sym_str(CHOOSE(0, 2));
  if (tail == 2) p[n++] = '?';
  p[n++] = '[';
  for (i = 0; i < np; i++) { static const char mem[] = "]-ace\xe0\xe9[*^"; p[n++] = mem[CHOOSE(0, sizeof mem - 2)]; }
  if (closed) p[n++] = ']';
  if (closed && tail == 1) p[n++] = '*';
  p[n] = 0;
  check(strdup(p), s);
}
#elif defined(LONGP)
/* names and patterns with many elements */
void harness(void)
{
  int n = CHOOSE(LONGP, LONGP + 1), i, w = CHOOSE(0, 3), d = CHOOSE(0, 2); char p[80], s[80]; int k = 0, j = 0;
  if (w == 2) { p[k++] = '*'; p[k++] = '*'; }
  for (i = 0; i < n; i++) { unsigned char c = sym_u8(); c = vor(i == n - 1, vor(i == 0, i == 16)) ? c : 'a' + i % 7; ASSUME(vor(c == '/', vand(c >= 'a', c <= 'z'))); p[k++] = c; if (d == 1 && i == n - 1) continue; s[j++] = c; }
  if (d == 2) s[j++] = 'x';
  if (w == 1) p[k++] = '*';
  if (w == 3) p[k-1] = '?';
  p[k] = s[j] = 0;
  { struct globber *g = make_globber(p); int r = is_glob_match(g, s), e = d == 0 || (d == 2 && w == 1);
    if (d == 2 && w == 2) ASSUME(p[k-1] != 'x');
    CHECK(!!r == e, "a long pattern matches exactly the names it describes");
    if (r) COVER("match"); else COVER("no match"); }
}
#elif defined(ARRAY)
/* several patterns, separated by colons */
void harness(void)
{
  int i, n = CHOOSE(1, 2), e = 0, k = 0; char l[16], pat[3][4]; char *s = sym_str(CHOOSE(0, 2)); struct globber_array *ga;
  for (i = 0; i <= n; i++) {
    int q = CHOOSE(i == n, n == 1 ? 2 : 1), j;  /* an empty last entry is no entry */
    for (j = 0; j < q; j++) { char c = sym_u8(); ASSUME(vand(vand(c != 0, c != ':'), vand(c != '[', c != '\\'))); l[k++] = pat[i][j] = c; }
    pat[i][q] = 0; l[k++] = i < n ? ':' : 0;
  }
  ga = colon_sep_string_to_globber_array(l);
  for (i = 0; i <= n; i++) e = vor(e, m(pat[i], s));
  CHECK(!!is_globber_array_match(ga, s) == e, "a name is omitted when one of the patterns matches it");
  CHECK(!is_globber_array_match(NULL, s), "without patterns nothing is omitted");
  if (e) COVER("match"); else COVER("no match");
}
#else
void harness(void)
{
  int np = CHOOSE(0,NP), ns = CHOOSE(0,NS), i;
  char *p = sym_str(np), *s = sym_str(ns);
  for (i=0;i<np;i++) ASSUME(p[i] != '[' );
  check(p, s);
}
#endif
