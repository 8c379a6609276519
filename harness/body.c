/* Transfer encodings: what a reference encoder wrote is what the parser gets. */
#include "rfcmsg.h"
#ifndef N
#define N 5
#endif
static unsigned char d[N + 1]; static int n;
static void data(int lo, int hi) { int i; n = CHOOSE(lo, hi); for (i = 0; i < n; i++) d[i] = sym_u8(); }
static void hdr(const char *enc) { put("Content-Transfer-Encoding: "); put(enc); put("\n\n"); }
static void expect(const unsigned char *w, int wn)
{
  struct rfc822 *r = parse(); struct attachment *a;
  CHECK(r && err == DTR8_OK, "a well formed message is understood");
  CHECK(n_atts(r) == 1, "a simple message has one body");
  a = att(r, 0);
  CHECK(a->ct == CT_TEXT_PLAIN && a->filename == NULL, "without a content type the body is plain text");
  CHECK(a->data.normal.len == wn, "the decoded body has the length of the original text");
  CHECK(same(a->data.normal.bytes, (const char *) w, wn), "the decoded body is the original text");
  CHECK(a->data.normal.bytes[wn] == 0, "the decoded body is terminated");
}
#if defined(B64)
static int c64(int v) { return 'A' + v + 6 * (v >= 26) - 75 * (v >= 52) - 15 * (v >= 62) + 3 * (v >= 63); }
static int k, cut, crlf;
static void out(int c) { if (k++ == cut) { if (crlf) putb('\r'); putb('\n'); } putb(c); }
void harness(void)
{
  int i, w = CHOOSE(0, 2);
  data(0, N);
#ifdef CONC
  /* every 6 bit value at every place of a group, each on its own path */
  { unsigned g = CHOOSE(0, 3), v = CHOOSE(0, 63), x = v << (6 * (3 - g)); if (n >= 3) { d[0] = x >> 16; d[1] = x >> 8; d[2] = x; } }
#endif
  hdr(w == 0 ? "base64" : w == 1 ? "BASE64" : "Base64");
  cut = CHOOSE(0, 4); crlf = cut ? CHOOSE(0, 1) : 0; if (!cut) cut = -1;
  for (i = 0; i < n; i += 3) {
    int b0 = d[i], b1 = i + 1 < n ? d[i+1] : 0, b2 = i + 2 < n ? d[i+2] : 0;
    out(c64(b0 >> 2)); out(c64((b0 & 3) << 4 | b1 >> 4));
    if (i + 1 < n) out(c64((b1 & 15) << 2 | b2 >> 6)); else out('=');
    if (i + 2 < n) out(c64(b2 & 63)); else out('=');
  }
  if (n) { if (crlf) putb('\r'); putb('\n'); }
  expect(d, n);
  COVER_IF(n % 3 == 1, "two padding characters"); COVER_IF(n % 3 == 2, "one padding character"); COVER_IF(n == N && cut > 0, "two lines");
}
#elif defined(QP)
void harness(void)
{
  int i, any = 0;
  data(0, N);
  hdr(CHOOSE(0, 1) ? "quoted-printable" : "Quoted-Printable");
  for (i = 0; i < n; i++) {
    int soft = CHOOSE(0, 3), how = CHOOSE(0, 2);
    if (soft) { put(soft == 1 ? "=\n" : soft == 2 ? "= \t\n" : "=\r\n"); any = 1; }
    if (how == 0) { ASSUME(d[i] != '='); putb(d[i]); }
    else { int h = d[i] >> 4, l = d[i] & 15, ten = (how == 1 ? 'A' : 'a') - 10; putb('='); putb('0' + h + (h >= 10) * (ten - '0')); putb('0' + l + (l >= 10) * (ten - '0')); }
  }
  if (CHOOSE(0, 1)) put("=\n");
  expect(d, n);
  COVER_IF(n == N && any, "soft line break");
}
#elif defined(UU)
static int cuu(int v, int tick) { return v + 32 + 64 * vand(tick, v == 0); }
void harness(void)
{
  int i, j, first, tick = CHOOSE(0, 1), intro = CHOOSE(0, 1);
  data(0, N);
  first = n ? CHOOSE(1, n) : 0;
  hdr(CHOOSE(0, 1) ? "x-uuencode" : "X-UUENCODE");
  if (intro) put("some text\n");
  put("begin 644 f\n");
  for (i = 0; i < n; ) {
    int l = i ? n - i : first;
    putb(cuu(l, 0));
    for (j = 0; j < l; j += 3) {
      int b0 = d[i+j], b1 = j + 1 < l ? d[i+j+1] : 0, b2 = j + 2 < l ? d[i+j+2] : 0;
      putb(cuu(b0 >> 2, tick)); putb(cuu((b0 & 3) << 4 | b1 >> 4, tick)); putb(cuu((b1 & 15) << 2 | b2 >> 6, tick)); putb(cuu(b2 & 63, tick));
    }
    putb('\n'); i += l;
  }
  putb(cuu(0, tick)); put("\nend\n");
  expect(d, n);
  COVER_IF(first && first < n, "two lines"); COVER_IF(n == 0, "empty file");
}
#elif defined(RAW)
void harness(void)
{
  static const char *const e[] = { "7bit", "8bit", "binary", "7-bit", "8-bit", "7 bit", "8 bit", "8BIT", "Binary" };
  int w = CHOOSE(0, 9);
  data(0, N);
  if (w < 9) hdr(e[w]); else put("X: y\n\n");
  putn((char *) d, n);
  expect(d, n);
  COVER_IF(n == N, "longest");
}
#elif defined(ANY)
/* arbitrary bodies: nothing outside the message is read, nothing outside the result written */
void harness(void)
{
  static const char *const e[] = { "quoted-printable", "base64", "x-uuencode", "x-new" };
  int w = CHOOSE(LO, HI), i; struct rfc822 *r;
  data(0, N);
  hdr(e[w]);
  if (w == 2) { if (CHOOSE(0, 1)) put("begin 6 f\n"); }
#ifdef ALPHA
  for (i = 0; i < n; i++) { static const char al[] = "= \n1aZ\r#b"; d[i] = al[CHOOSE(0, sizeof al - 2)]; }
#endif
  putn((char *) d, n);
  r = parse();
  CHECK(r && n_atts(r) == 1, "the message is still indexed");
  CHECK(att(r, 0)->data.normal.len >= 0 && att(r, 0)->data.normal.len <= n, "decoding does not make data longer");
  for (i = 0; i < att(r, 0)->data.normal.len; i++) CHECK(INITIALISED(att(r, 0)->data.normal.bytes + i, 1), "decoded text comes from the message");
  COVER("body decoded");
}
#endif
