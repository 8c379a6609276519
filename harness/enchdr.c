/* RFC 2047 encoded words in header values. */
#include "rfcmsg.h"
#ifndef N
#define N 2
#endif
#ifndef NW
#define NW 2
#endif
#ifndef NT
#define NT 1
#endif
static char want[100]; static int wl, last_eq;
static void w(int c) { want[wl++] = (char) c; }
static void text(int n)
{
  int i, prev = 0;
  for (i = 0; i < n; i++) {
    int c = sym_u8();
    ASSUME(vand(c != 0, c != '\n')); ASSUME(!vand(prev == '=', c == '?'));
    putb(c); w(c); prev = c;
  }
}
static int c64(int v) { return 'A' + v + 6 * (v >= 26) - 75 * (v >= 52) - 15 * (v >= 62) + 3 * (v >= 63); }
static void word(int kind)
{
  int n = CHOOSE(0, N), i; unsigned char d[N + 1];
  int up = CHOOSE(0, 1);
  for (i = 0; i < n; i++) { d[i] = sym_u8(); ASSUME(d[i] != 0); }
  if (kind == 0) {
    put(up ? "=?utf-8?Q?" : "=?x?q?");
    for (i = 0; i < n; i++) {
      int how = CHOOSE(0, 3);
      if (how == 0) { ASSUME(vand(vand(d[i] != '=', d[i] != '?'), vand(d[i] != '_', d[i] != '\n'))); putb(d[i]); }
      else if (how == 1) { ASSUME(d[i] == ' '); putb('_'); }
      else { int h = d[i] >> 4, l = d[i] & 15, ten = (how == 2 ? 'A' : 'a') - 10; putb('='); putb('0' + h + (h >= 10) * (ten - '0')); putb('0' + l + (l >= 10) * (ten - '0')); }
    }
  } else if (kind == 1) {
    put(up ? "=?iso-8859-1?B?" : "=?x?b?");
    for (i = 0; i < n; i += 3) {
      int b0 = d[i], b1 = i + 1 < n ? d[i+1] : 0, b2 = i + 2 < n ? d[i+2] : 0;
      putb(c64(b0 >> 2)); putb(c64((b0 & 3) << 4 | b1 >> 4));
      putb(i + 1 < n ? c64((b1 & 15) << 2 | b2 >> 6) : '='); putb(i + 2 < n ? c64(b2 & 63) : '=');
    }
  } else {
    /* an encoding this version knows nothing of: kept as it stands */
    int s = mlen;
    put(up ? "=?x?Z?" : "=?x?QQ?");
    for (i = 0; i < n; i++) { ASSUME(vand(d[i] != '?', d[i] != '\n')); if (i == 0) ASSUME(d[i] != '='); putb(d[i]); }
    put("?=");
    for (; s < mlen; s++) w(msg[s]);
    return;
  }
  put("?=");
  for (i = 0; i < n; i++) w(d[i]);
}
static char *field(struct rfc822 *r, int f)
{ return f == 0 ? r->hdrs.subject : f == 1 ? r->hdrs.from : f == 2 ? r->hdrs.to : f == 3 ? r->hdrs.cc : f == 4 ? r->hdrs.message_id : f == 5 ? r->hdrs.in_reply_to : r->hdrs.references; }
static const char *const fname[] = { "Subject:", "From:", "To:", "Cc:", "Message-Id:", "In-Reply-To:", "References:" };
#ifndef ANY
void harness(void)
{
  int nw = CHOOSE(0, NW), i, f = CHOOSE(0, NF); struct rfc822 *r; char *g;
  put("X-First: 1\n"); put(fname[f]);
  for (i = 0; i < nw; i++) { text(CHOOSE(0, NT)); word(CHOOSE(0, 2)); }
  text(CHOOSE(0, NT));
  put("\n\nbody\n");
  r = parse();
  CHECK(r && err == DTR8_OK, "a well formed message is understood");
  g = field(r, f);
  CHECK(g != NULL, "the header is there");
  CHECK(same(g, want, wl), "encoded words are replaced by the text they stand for, all else is kept");
  CHECK(g[wl] == 0, "the header value ends where it should");
  COVER_IF(nw == NW, "all words"); COVER_IF(nw == 0, "no word");
}
#else
/* arbitrary text in and after an encoded word: the value is never longer than it was, and stays inside its block */
void harness(void)
{
  int i, n = CHOOSE(0, N), m = CHOOSE(0, N), k = CHOOSE(0, 2), closed = CHOOSE(0, 1); struct rfc822 *r; int s;
  put("Subject:"); s = mlen;
  put(k == 0 ? "=?x?Q?" : k == 1 ? "=?x?B?" : "=?x?");
  for (i = 0; i < n; i++) { static const char al[] = "=?_aQ+"; putb(al[CHOOSE(0, sizeof al - 2)]); }
  if (closed) put("?=");
  for (i = 0; i < m; i++) { static const char al[] = "=?Bb"; putb(al[CHOOSE(0, sizeof al - 2)]); }
  s = mlen - s;
  put("\n\n");
  r = parse();
  CHECK(r && r->hdrs.subject, "the message is still indexed");
  CHECK((int) strlen(r->hdrs.subject) <= s, "decoding does not make text longer");
  COVER_IF(closed, "closed word"); COVER_IF(!closed, "open word");
}
#endif
