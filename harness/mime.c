/* Structure of messages: header lines, multipart bodies. */
#include "rfcmsg.h"
void free_rfc822(struct rfc822 *msg);
#if defined(HDRS)
#ifndef K
#define K 3
#endif
#ifndef V
#define V 1
#endif
/* expected values */
static char want[8][80]; static int wl[8], have[8];
static int fl_seen, fl_replied, fl_flagged;
static void add(int f, int c) { want[f][wl[f]++] = (char) c; }
static char *field(struct rfc822 *r, int f)
{ return f == 0 ? r->hdrs.to : f == 1 ? r->hdrs.cc : f == 2 ? r->hdrs.from : f == 3 ? r->hdrs.subject : f == 4 ? r->hdrs.message_id : f == 5 ? r->hdrs.in_reply_to : r->hdrs.references; }
static const char *const names[3][9] = {
  { "To", "Cc", "From", "Subject", "Message-ID", "In-Reply-To", "References", "Status", "X-Status" },
  { "TO", "CC", "FROM", "SUBJECT", "MESSAGE-ID", "IN-REPLY-TO", "REFERENCES", "STATUS", "X-STATUS" },
  { "to", "cc", "from", "subject", "message-Id", "in-reply-to", "references", "status", "x-status" } };
static int cur, curf = -1; /* line being written: field it goes to, or -1 */
static void value(int c)
{
  putb(c);
  if (curf >= 0) add(curf, c);
  if (cur == 7 || cur == 8) { fl_seen = vor(fl_seen, c == 'R'); fl_replied = vor(fl_replied, c == 'A'); fl_flagged = vor(fl_flagged, c == 'F'); }
}
static int plain(void) { int c = sym_u8(); ASSUME(vand(c != 0, c != '\n')); return c; }
static int solid(void) { int c = sym_u8(); ASSUME(vand(vand(c != 0, c != ' '), vor(c < 9, c > 13))); return c; }
#define TOT 16
void harness(void)
{
  int k = CHOOSE(1, K), style = CHOOSE(0, 2), i, j, kind, bad = 0, first = 1, end, ret; struct rfc822 *r;
  for (i = 0; i < k; i++) {
    kind = CHOOSE(LOK, HIK);
    if (kind <= 8) {
      int v = CHOOSE(0, V);
      put(names[style][kind]); putb(':');
      cur = kind; curf = -1;
      if (kind <= 1) { if (have[kind]) { add(kind, ','); add(kind, ' '); } have[kind] = 1; curf = kind; }
      else if (kind <= 6 && !have[kind]) { have[kind] = 1; curf = kind; }
      for (j = 0; j < v; j++) value(plain());
      first = 0;
    } else if (kind == 9) { /* some other header; its name may begin like one that matters */
      static const char *const o[] = { "Tox", "Ccc", "X-To", "Received", "Subjects", "From-X" };
      put(o[CHOOSE(0, 5)]); putb(':'); putb(plain()); cur = curf = -1; first = 0;
    } else if (kind == 10) { /* folded line */
      int ws = CHOOSE(1, 2), t = 0;
      for (j = 0; j < ws; j++) putb(t = CHOOSE(0, 1) ? ' ' : '\t');
      if (first) bad = 1;
      if (curf >= 0) add(curf, t);
      value(solid()); for (j = 1; j < V; j++) value(plain());
    } else if (kind == 11) { /* not a header */
      static const char *const o[] = { "Word", "Two words: x", ": x", "Word : x" };
      put(o[CHOOSE(0, 3)]); bad = 1;
    } else { /* a mailbox separator that got in */
      put(CHOOSE(0, 1) ? "From a: b" : ">From to: c"); cur = curf = -1;
    }
    putb('\n');
  }
  end = CHOOSE(0, 4);
  if (end == 0) put("\n"); else if (end == 1) put("\r\n"); else if (end == 2) put(" \t\n"); /* 3: the message ends after the last header line */
  else if (end == 4) { put("X-Cut: o"); bad = 1; }
  if (end < 3) put("T");
  r = parse();
  if (bad) {
    CHECK(r == NULL && err == DTR8_BAD_HEADERS, "a text that does not start with headers is refused");
    COVER("refused");
    return;
  }
  CHECK(r && err == DTR8_OK, "a well formed message is understood");
  for (i = 0; i < 7; i++) {
    char *g = field(r, i);
    CHECK((g != NULL) == have[i], "a header is present exactly when the message has it");
    if (!g) continue;
    CHECK(same(g, want[i], wl[i]) , "header values are as written, folded lines joined, addresses collected");
    CHECK(g[wl[i]] == 0, "the header value ends where it should");
  }
  CHECK(r->hdrs.flags.seen == fl_seen && r->hdrs.flags.replied == fl_replied && r->hdrs.flags.flagged == fl_flagged, "status letters give the flags");
  CHECK(r->hdrs.date == 0, "without a date header there is no date");
  CHECK(n_atts(r) == 1, "the rest is the body");
  CHECK(att(r, 0)->data.normal.len == (end < 3) && att(r, 0)->data.normal.bytes[0] == (end < 3 ? 'T' : 0), "the body starts after the blank line");
  free_rfc822(r);
  COVER("understood");
}
#else
/* ---- multipart ---- */
#ifndef K
#define K 2
#endif
#ifndef S
#define S 2
#endif
static int exp_n; static enum content_type exp_ct[8]; static int exp_off[8], exp_len[8]; static const char *exp_fn[8];
static const char *B;
static int any(void) { return sym_u8(); }
static int startmsg;
/* is there a boundary line at p?  2: the final one */
static int bline(int p)
{
  int i, bl = strlen(B);
  if (p > startmsg && msg[p-1] != '\n') return 0;
  if (p + 2 + bl >= mlen || msg[p] != '-' || msg[p+1] != '-') return 0;
  for (i = 0; i < bl; i++) if (msg[p+2+i] != B[i]) return 0;
  p += 2 + bl;
  if (p + 1 < mlen && msg[p] == '-' && msg[p+1] == '-') return 2;
  if (msg[p] == '\n') return 1;
  if (p + 1 < mlen && msg[p] == '\r' && msg[p+1] == '\n') return 1;
  return 0;
}
static void compare(struct rfc822 *r)
{
  int i; struct attachment *a;
  CHECK(n_atts(r) == exp_n, "each part of the message is found");
  for (i = 0, a = r->atts.next; i < exp_n; i++, a = a->next) {
    CHECK(a->ct == exp_ct[i], "each part has the type its header gives");
    CHECK(!a->filename == !exp_fn[i] && (!exp_fn[i] || !strcmp(a->filename, exp_fn[i])), "each part has the file name its header gives");
    if (exp_ct[i] == CT_MESSAGE_RFC822) {
      struct rfc822 *q = a->data.rfc822;
      CHECK(q && q->hdrs.subject && !strcmp(q->hdrs.subject, " in"), "an enclosed message has its own headers");
      CHECK(n_atts(q) == 1 && att(q, 0)->data.normal.len == exp_len[i] && same(att(q, 0)->data.normal.bytes, msg + exp_off[i], exp_len[i]), "an enclosed message has its own body");
      continue;
    }
    CHECK(a->data.normal.len == exp_len[i], "a part runs to the next boundary line");
    CHECK(same(a->data.normal.bytes, msg + exp_off[i], exp_len[i]), "a part has the text between its boundary lines");
    CHECK(a->data.normal.bytes[exp_len[i]] == 0, "a part is terminated");
  }
}
#if defined(SPLIT)
/* arbitrary text around and inside: only whole boundary lines separate parts */
void harness(void)
{
  static const char *const bs[] = { "b", "b-", "--" };
  int i, p, state = 0, from = 0, fin = 0, n; struct rfc822 *r;
  B = bs[CHOOSE(0, 2)];
  put("Content-Type: multipart/mixed; boundary=\""); put(B); put("\"\n\n");
  startmsg = mlen;
  n = CHOOSE(0, S); for (i = 0; i < n; i++) putb(any());
  if (CHOOSE(0, 1)) put("\n");
  put("--"); put(B); put(CHOOSE(0, 1) ? "\n\n" : "\r\n\n");
  n = CHOOSE(0, S); for (i = 0; i < n; i++) putb(any());
  put("\n--"); put(B); n = CHOOSE(0, 2); for (i = 0; i < n; i++) putb(any());
  put("\n\nz\n--"); put(B); put("--\n");
  if (CHOOSE(0, 1)) put("epilogue\n");
  for (p = startmsg; p < mlen && !fin; p++) {
    int k = bline(p);
    if (!k) continue;
    if (state) {
      int q, body = -1;
      /* the part: empty header, then text; the harness only writes parts whose first line is blank, empty, or says nothing known */
      for (q = from; q < p && msg[q] != '\n'; q++) { ASSUME(msg[q] == ' ' || (msg[q] >= 9 && msg[q] <= 13)); }
      body = q < p ? q + 1 : p;
      exp_ct[exp_n] = CT_TEXT_PLAIN; exp_off[exp_n] = body; exp_len[exp_n] = p - body; exp_n++;
    }
    state = 1; fin = k == 2;
    for (p += 2; msg[p] != '\n'; p++) ;
    from = p + 1;
  }
  r = parse();
  CHECK(r != NULL, "the message is indexed");
  CHECK(err == DTR8_OK, "a multipart message that ends properly is complete");
  compare(r);
  free_rfc822(r);
  COVER_IF(exp_n == 2, "two parts"); COVER_IF(exp_n == 1, "one part");
}
#else
/* the kinds of parts, nesting, missing ends */
static int open_end;
static void part(int depth)
{
  static const struct { const char *h; enum content_type ct; } t[] = {
    { "", CT_TEXT_PLAIN }, { "Content-Type: text/plain\n", CT_TEXT_PLAIN }, { "content-type: TEXT/HTML; charset=x\n", CT_TEXT_HTML },
    { "Content-Type: text/rtf\n", CT_TEXT_OTHER }, { "Content-Type: application/pdf\n", CT_OTHER }, { "Content-Type: text\n", CT_TEXT_OTHER } };
  static const int inner[] = { 0, 2, 7, 8, 9 };
  int kind = depth ? inner[CHOOSE(0, 4)] : CHOOSE(0, 10), e = exp_n, disp;
  if (kind <= 5) {
    put(t[kind].h); exp_ct[e] = t[kind].ct;
    disp = depth ? 0 : CHOOSE(0, 3);
    if (disp == 1) { put("Content-Disposition: attachment; filename=f.x\n"); if (kind) exp_fn[e] = "f.x"; }
    else if (disp == 2) put("Content-Disposition: inline; filename=f.x\n");
    else if (disp == 3) { put("Content-Disposition: Attachment;\n\tFilename=\"f y\"\n"); if (kind) exp_fn[e] = "f y"; }
    put("\n"); exp_off[e] = mlen; putb(any()); putb(any()); put("\n"); exp_len[e] = 3; exp_n++;
  } else if (kind == 6) {
    put("Content-Type: application/x; name=n.z\nContent-Disposition: attachment\n\n"); exp_ct[e] = CT_OTHER; exp_fn[e] = "n.z"; exp_off[e] = mlen; exp_len[e] = 0; exp_n++;
  } else if (kind == 7) {
    put("Content-Type: message/rfc822\n\nSubject: in\n\n"); exp_ct[e] = CT_MESSAGE_RFC822; exp_off[e] = mlen; putb(any()); put("\n"); exp_len[e] = 2; exp_n++;
  } else if (kind == 8) { /* a part that makes no sense is left out */
    put("no header\n\nx\n");
  } else if (kind == 9) {
    static const char *const l[] = { "--bX\n", " --b\n", "-b\n", "--d\n", "x--b--\n", "--\n", "--bb--\n" };
    put("\n"); exp_ct[e] = CT_TEXT_PLAIN; exp_off[e] = mlen; put(l[CHOOSE(0, 6)]); exp_len[e] = mlen - exp_off[e]; exp_n++;
  } else {
    int k = CHOOSE(0, 1), i;
    put("Content-Type: multipart/alternative;\n boundary=c\n\n--c\n");
    for (i = 0; i <= k; i++) { part(depth + 1); put(i == k ? "--c--\n" : "--c\n"); }
  }
}
void harness(void)
{
  int k = CHOOSE(0, K), i; struct rfc822 *r; const char *h;
  B = "b";
  i = k == K ? 1 : CHOOSE(0, 2);
  put(i == 0 ? "Content-Type: multipart/mixed; boundary=b\n\n" : i == 1 ? "CONTENT-TYPE: Multipart/Mixed; charset=x ;\n\tBoundary=\"b\"\n\n" : "Content-Type: multipart/mixed; boundary=b\nContent-Type: text/plain\n\n");
  if (i == 0) put("preamble\n");
  put("--b\n");
  for (i = 0; i < k; i++) { part(0); if (i < k - 1) put("--b\n"); }
  open_end = CHOOSE(0, k == K ? 1 : 2);
  if (k == 0) { exp_ct[0] = CT_TEXT_PLAIN; exp_off[0] = mlen; exp_len[0] = 0; exp_n = 1; }
  if (open_end == 0) put("--b--\n");
  else if (open_end == 1) put("--b\nX: last part has no end\n\nt\n");
  else put("--b--");
  r = parse();
  CHECK(r != NULL, "the message is indexed");
  CHECK(err == (open_end == 1 ? DTR8_MISSING_END : DTR8_OK), "a missing final boundary is noticed");
  compare(r);
  free_rfc822(r);
  COVER_IF(exp_n == K, "all parts"); COVER_IF(open_end == 1, "no final boundary");
}
#endif
#endif
