/* Query evaluation through the real search entry point. */
#include "srch.h"

/* a posting list over two messages, as two solver variables */
static int bit[8][2];
static unsigned sym_posting2(int w)
{
  unsigned char p[3]; unsigned o;
  bit[w][0] = sym_bool(); bit[w][1] = sym_bool();
  /* branch-free encoding: {} -> ff ; {0} -> 00 ff ; {1} -> 01 ff ; {0,1} -> 00 01 ff */
  p[0] = bit[w][0] ? 0 : bit[w][1] ? 1 : 0xff;
  p[1] = bit[w][0] & bit[w][1] ? 1 : 0xff;
  p[2] = 0xff;
  o = im_bytes(p, 3);
  return o;
}

#if defined(BOOL)
/* an argument of up to LEN characters over words x and y, negation, both
 * separators; plus a second argument */
#ifndef LEN
#define LEN 5
#endif
#define WELLFORMED(s, n) wellformed(s, n)
static int isw(char c) { return (c == 'x') | (c == 'y'); }
static int issep(char c) { return (c == ',') | (c == '/'); }
static void sym_query(char *s, int n)
{
  int i;
  for (i = 0; i < n; i++) {
    s[i] = sym_u8();
    ASSUME(isw(s[i]) | issep(s[i]) | (s[i] == '~'));
    /* a word (perhaps negated) is one letter and is followed by a separator */
    if (i == 0) ASSUME(!issep(s[i])); 
    else ASSUME((isw(s[i]) & ((s[i-1] == '~') | issep(s[i-1]))) | ((s[i] == '~') & issep(s[i-1])) | (issep(s[i]) & isw(s[i-1])));
    if (i == n-1) ASSUME(isw(s[i]));
  }
  s[n] = 0;
}
/* OR over '/'-separated groups of the AND over ','-separated, possibly negated words */
static int eval(const char *s, int n, int m)
{
  int i, or = 0, and = 1, neg = 0;
  for (i = 0; i < n; i++) {
    int v = (s[i] == 'x') ? bit[0][m] : bit[1][m];
    int w = isw(s[i]), sl = s[i] == '/';
    and = w ? and & (v ^ neg) : and;
    neg = (s[i] == '~');
    or = sl ? or | and : or;
    and = sl ? 1 : and;
  }
  return or | and;
}
void harness(void)
{
  int n1 = CHOOSE(1, LEN), n2 = CHOOSE(0, ARG2), m, i, any = 0, e;
  char a1[LEN+3], a2[LEN+3], *argv[3] = { a1, NULL, NULL };
  memcpy(a1, "b:", 2); memcpy(a2, "b:", 2);
  sym_query(a1 + 2, n1);
  if (n2) { sym_query(a2 + 2, n2); argv[1] = a2; }
  im_new(1024);
  srch_msgs(2); im_mboxen(0); im_empty_toks();
  im_toks(UI_BODY_BASE, 2, 0);
  for (i = 0; i < 2; i++) { char w[2] = { 'x' + i, 0 }; IM_TOK(UI_BODY_BASE, i) = im_str(w); IM_ENC(UI_BODY_BASE, i) = sym_posting2(i); }
  srch_run(argv, 0, 0, 2);
  for (m = 0; m < 2; m++) {
    e = eval(a1 + 2, n1, m);
    if (n2) e &= eval(a2 + 2, n2, m);
    CHECK(got[m] == e, "a message is reported exactly when the query holds for it");
    OBSERVE(got[m]); any |= got[m];
  }
  if (any) COVER("match"); else COVER("no match");
  if (n2) COVER("two arguments");
}
#elif defined(KEYS)
/* which parts of the message a key letter selects */
static const unsigned base[6] = { UI_TO_BASE, UI_CC_BASE, UI_FROM_BASE, UI_SUBJECT_BASE, UI_BODY_BASE, UI_ATTACHMENT_NAME_BASE };
static int sel(char k, int t)
{
  switch (t) {
    case 0: return (k == 't') | (k == 'r') | (k == 'a');
    case 1: return (k == 'c') | (k == 'r') | (k == 'a');
    case 2: return (k == 'f') | (k == 'a');
    case 3: return k == 's';
    case 4: return k == 'b';
    case 5: return k == 'n';
    default: return k == 'p';
  }
}
void harness(void)
{
  int nk = CHOOSE(0, 2), i, t, m, e, c;
  char a[10], *argv[2] = { a, NULL };
  int sub = CHOOSE(0, 1), low;
  for (i = 0; i < nk; i++) {
    a[i] = sym_u8();
    c = a[i]; ASSUME((c=='b')|(c=='s')|(c=='t')|(c=='c')|(c=='f')|(c=='r')|(c=='a')|(c=='n')|(c=='p'));
  }
  i = nk; if (nk) a[i++] = ':';
  low = sym_bool(); a[i++] = 'W' + 32 * low;
  if (sub) a[i++] = '=';
  a[i] = 0;
  im_new(2048);
  srch_msgs(2); im_mboxen(0); im_toks(UI_MSGID_BASE, 0, 1);
  /* paths: "p0" and "p1", or also with the word in them, which is looked for as it is written */
  bit[6][0] = bit[6][1] = 0;
  if (CHOOSE(0, 1)) { IM_MSG(UI_MSG_CDATA, 1) = im_str("p1w"); bit[6][1] = low; }
  for (t = 0; t < 6; t++) {
    /* "v" is in message 1 everywhere and must never match */
    int m1[2] = {0, 1};
    im_toks(base[t], 2, 0);
    IM_TOK(base[t], 0) = im_str("v"); IM_ENC(base[t], 0) = im_posting(m1, 2);
    IM_TOK(base[t], 1) = im_str("w"); IM_ENC(base[t], 1) = sym_posting2(t);
  }
  srch_run(argv, 0, 0, 2);
  for (m = 0; m < 2; m++) {
    e = 0;
    for (t = 0; t < 7; t++) {
      int s = nk ? 0 : t < 5;
      for (i = 0; i < nk; i++) s |= sel(a[i], t);
      e |= s & bit[t][m];
    }
    CHECK(got[m] == e, "a message is reported exactly when the word occurs in a part the key letters select");
    OBSERVE(got[m]);
  }
  if (!nk) COVER("no key");
  COVER_IF(nk == 2 && a[0] == 's' && a[1] == 'n' && got[0], "two keys");
  COVER_IF(got[0] && a[0] == 'a' && bit[1][0], "address key");
}
#elif defined(THREADS)
/* -t and dead messages */
#define N 4
void harness(void)
{
  char *argv[2] = { "b:x", NULL };
  int hit[N], dead[N], tid[N], i, j, e, thr = CHOOSE(0, 1), sorted = CHOOSE(0, 1);
  unsigned date[N];
  im_new(1024);
  srch_msgs(N); im_mboxen(0); im_empty_toks();
  for (i = 0; i < N; i++) {
    dead[i] = CHOOSE(0, 1); hit[i] = CHOOSE(0, 1);
    tid[i] = sym_range(0, N); IM_MSG(UI_MSG_TID, i) = tid[i];
    if (dead[i]) { IM_TYPE(i) = DB_MSG_DEAD; IM_MSG(UI_MSG_CDATA, i) = 0; }
    date[i] = 1000 + i;
  }
  im_toks(UI_BODY_BASE, 1, 0);
  IM_TOK(UI_BODY_BASE, 0) = im_str("x"); IM_ENC(UI_BODY_BASE, 0) = im_posting(hit, N);
  srch_run(argv, thr, sorted, N);
  for (i = 0; i < N; i++) {
    e = hit[i];
    if (thr) for (j = 0; j < N; j++) e |= hit[j] & !dead[j] & (tid[j] == tid[i]);
    e &= !dead[i];
    CHECK(got[i] == e, "exactly the live matches (with -t, the live messages of their threads) are reported");
    OBSERVE(got[i]);
  }
  if (thr && ngot > 1) COVER("thread expanded");
}
#elif defined(SORT)
/* -x / date order */
#define N 3
void harness(void)
{
  char *argv[2] = { "b:x", NULL };
  int hit[N], i;
  unsigned date[N];
  im_new(1024);
  srch_msgs(N); im_mboxen(0); im_empty_toks();
  for (i = 0; i < N; i++) {
    hit[i] = CHOOSE(0, 1);
    date[i] = sym_u32(); IM_MSG(UI_MSG_DATE, i) = date[i];
#ifdef NEAR
    ASSUME(date[i] < 0x7fffffff);
#endif
  }
  im_toks(UI_BODY_BASE, 1, 0);
  IM_TOK(UI_BODY_BASE, 0) = im_str("x"); IM_ENC(UI_BODY_BASE, 0) = im_posting(hit, N);
  srch_run(argv, 0, 1, N);
  for (i = 0; i < N; i++) { CHECK(got[i] == hit[i], "sorting does not change which messages are reported"); OBSERVE(got[i]); }
  for (i = 1; i < ngot; i++) CHECK(date[order[i-1]] <= date[order[i]], "with date sorting, messages come out in date order");
  if (ngot == N) COVER("three sorted");
}
#elif defined(FLAGS)
/* F: expressions */
void harness(void)
{
  int n = CHOOSE(1, 4), i, m, e;
  char a[8], *argv[2] = { a, NULL };
  unsigned char fl[2];
  int pos[3] = {0,0,0}, neg[3] = {0,0,0}, minus = 0;
  a[0] = 'F'; a[1] = ':';
  for (i = 0; i < n; i++) {
    int c = a[2+i] = sym_u8(), k;
    ASSUME((c=='-')|(c=='s')|(c=='S')|(c=='r')|(c=='R')|(c=='f')|(c=='F'));
    if (i == n-1) ASSUME(c != '-');
    for (k = 0; k < 3; k++) {
      int is = (c == "srf"[k]) | (c == "SRF"[k]);
      pos[k] |= is & !minus; neg[k] |= is & minus;
    }
    if (i) ASSUME(!((c == '-') & minus));
    minus = c == '-';
  }
  a[2+n] = 0;
  im_new(1024);
  srch_msgs(2); im_mboxen(0); im_empty_toks();
  for (m = 0; m < 2; m++) {
    fl[m] = sym_u8(); ASSUME(fl[m] < 8);
    IM_TYPE(m) = DB_MSG_FILE | (fl[m] & 1 ? FLAG_SEEN : 0) | (fl[m] & 2 ? FLAG_REPLIED : 0) | (fl[m] & 4 ? FLAG_FLAGGED : 0);
  }
  srch_run(argv, 0, 0, 2);
  for (m = 0; m < 2; m++) {
    e = 1;
    for (i = 0; i < 3; i++) { int f = (fl[m] >> i) & 1; e &= (!pos[i] | f) & (!neg[i] | !f); }
    CHECK(got[m] == e, "a flag search reports exactly the messages with the asked-for flags");
    OBSERVE(got[m]);
  }
  COVER_IF(got[0] && neg[1] && pos[0], "mixed flags");
}
#elif defined(SIZE)
/* z: expressions: optional lower and upper bound, K and M suffixes */
static int num(char *a, long long *val, int maxdig)
{
  long long v = 0; int nd = CHOOSE(1, maxdig), i, suf = CHOOSE(0, 2);
  for (i = 0; i < nd; i++) { a[i] = sym_u8(); ASSUME(a[i] >= '0' && a[i] <= '9'); v = v * 10 + (a[i] - '0'); }
  if (suf == 1) { a[nd++] = sym_bool() ? 'k' : 'K'; v *= 1024; }
  if (suf == 2) { a[nd++] = sym_bool() ? 'm' : 'M'; v *= 1024 * 1024; }
  *val = v;
  return nd;
}
void harness(void)
{
  int form = CHOOSE(0, 3), n = 2, m, e; long long lo = 0, hi = 0, t;
  char a[24], *argv[2] = { a, NULL };
  unsigned size;
  a[0] = 'z'; a[1] = ':';
  /* 0: N (below N)  1: -N (below N)  2: N- (above N)  3: N-M (between) */
  if (form == 2 || form == 3) n += num(a + n, &lo, ND);
  if (form != 0) a[n++] = '-';
  if (form != 2) n += num(a + n, &hi, ND);
  a[n] = 0;
  if (form == 3 && lo > hi) { t = lo; lo = hi; hi = t; }
  im_new(1024);
  srch_msgs(1); im_mboxen(0); im_empty_toks();
  size = sym_u32(); IM_MSG(UI_MSG_SIZE, 0) = size;
  srch_run(argv, 0, 0, 1);
  /* the manual does not say whether a bound itself is inside, so sizes equal to a bound are left open */
  if (form != 0 && form != 1 && size == lo) return;
  if (form != 2 && size == hi) return;
  e = 1;
  if (form == 2 || form == 3) e &= size > lo;
  if (form != 2) e &= size < hi;
  CHECK(got[0] == e, "a size search reports exactly the messages within the bounds");
  OBSERVE(got[0]);
  if (got[0] && form == 3) COVER("in range");
  if (!got[0]) COVER("outside");
}
#elif defined(MSGID)
/* m: exact, case-insensitive, uninterpreted; only the message's own ID counts */
void harness(void)
{
  int n = CHOOSE(1, 3), nt = CHOOSE(1, 3), i, e, m, eq;
  char a[8], id[4], *argv[2] = { a, NULL };
  int in0[2] = {1, 1}, in1[2] = {0, 1};
  a[0] = 'm'; a[1] = ':';
  for (i = 0; i < n; i++) { a[2+i] = sym_u8(); ASSUME(a[2+i] != 0); }
  a[2+n] = 0;
  for (i = 0; i < nt; i++) { id[i] = sym_u8(); ASSUME(id[i] != 0 && !(id[i] >= 'A' && id[i] <= 'Z')); }
  id[nt] = 0;
  im_new(1024);
  srch_msgs(2); im_mboxen(0); im_empty_toks();
  im_toks(UI_MSGID_BASE, 1, 1);
  IM_TOK(UI_MSGID_BASE, 0) = im_str(id); IM_ENC(UI_MSGID_BASE, 0) = im_posting(in0, 2); IM_ENC1(UI_MSGID_BASE, 0) = im_posting(in1, 2);
  srch_run(argv, 0, 0, 2);
  eq = n == nt;
  if (eq) for (i = 0; i < n; i++) { unsigned char c = a[2+i]; eq &= (c + 32 * ((c >= 'A') & (c <= 'Z'))) == (unsigned char) id[i]; }
  CHECK(got[0] == 0, "a message that merely refers to the ID is not reported");
  CHECK(got[1] == eq, "a Message-ID search reports exactly the message with that ID");
  OBSERVE(got[1]);
  if (got[1]) COVER("found");
}
#elif defined(PATHS)
/* p: case-sensitive substring of the path */
void harness(void)
{
  int n = CHOOSE(1, 2), i, j, m, e, eq;
  char a[8], *argv[2] = { a, NULL };
  char path[2][4];
  int types[2];
  struct encoded_mbox_indices { unsigned mb, msg; } enc = { 0, 0 };
  static const int kinds[] = { DB_MSG_DEAD, DB_MSG_FILE, DB_MSG_IMAP, DB_MSG_MBOX };
  a[0] = 'p'; a[1] = ':';
  for (i = 0; i < n; i++) { int c = a[2+i] = sym_u8(); ASSUME((c >= 'm' && c <= 'p') || (c >= 'M' && c <= 'N')); }
  j = 2 + n; if (CHOOSE(0, 1)) a[j++] = '=';
  a[j] = 0;
  im_new(1024);
  im_msgs(2); im_mboxen(2); im_empty_toks();
  for (m = 0; m < 2; m++) {
    types[m] = CHOOSE(0, 3);
    IM_TYPE(m) = kinds[types[m]];
    path[m][0] = 'p'; path[m][1] = '0' + m; path[m][2] = 0;
    IM_MSG(UI_MSG_CDATA, m) = im_str(path[m]); IM_MSG(UI_MSG_TID, m) = m;
    IM_MSG(UI_MBOX_PATHS, m) = IM_MSG(UI_MSG_CDATA, m);
    if (types[m] == 3) { enc.mb = m; enc.msg = 0; IM_MSG(UI_MSG_CDATA, m) = im_bytes(&enc, sizeof enc); }
  }
  srch_run(argv, 0, 0, 2);
  for (m = 0; m < 2; m++) {
    e = 0;
    for (i = 0; i + n <= 2; i++) { eq = 1; for (j = 0; j < n; j++) eq &= path[m][i+j] == a[2+j]; e |= eq; }
    e &= types[m] != 0;
    CHECK(got[m] == e, "a path search reports exactly the live messages whose path contains the text");
    OBSERVE(got[m]);
  }
  if (got[0]) COVER("found");
}
#endif
