/* Mailbox files: finding the messages in one, and following changes to it. */
#define VH_NAMES
#include "vh.h"
#include "vhsys.h"
#undef stat
#undef lstat
#undef opendir
#undef readdir
#undef closedir
#include "mairix.h"
#include "reader.h"
#include "md5.h"
#include "imapinterface.h"
#define FMAX 400
static char file[FMAX]; static int flen, mtime_now = 10, mapped;
static void put(const char *s, int n) { memcpy(file + flen, s, n); flen += n; }
static void puts0(const char *s) { put(s, strlen(s)); }
#define SEP "From a@bc Mon Mar 15 14:36:40 2021\n"
#define SEPL ((int) sizeof SEP - 1)
/* ---- world ---- */
int vh_stat(const char *p, struct stat *sb)
{ CHECK(p[0] == '/' && p[1] == 'm' && !p[2], "only the listed folder is looked at"); memset(sb, 0, sizeof *sb); sb->st_mode = S_IFREG; sb->st_mtime = mtime_now; sb->st_size = flen; return 0; }
int vh_lstat(const char *p, struct stat *sb) { return vh_stat(p, sb); }
DIR *vh_opendir(const char *p) { return NULL; }
struct dirent *vh_readdir(DIR *d) { return NULL; }
int vh_closedir(DIR *d) { return 0; }
void create_ro_mapping(const char *fn, unsigned char **data, int *len, enum ro_map_compressed_behaviour cb)
{
  CHECK(cb == MAP_DECOMPRESS_IF_APPLICABLE, "mailboxes may be compressed");
  *len = flen; if (!flen) { *data = NULL; return; }
  *data = malloc(flen); memcpy(*data, file, flen); mapped++;
}
void free_ro_mapping(unsigned char *d, int len) { free(d); mapped--; }
char *format_msg_src(struct msg_src *s) { return "x"; }
struct rfc822 *make_rfc822(char *fn) { return NULL; }
struct rfc822 *make_rfc822_from_imap(const char *fn, struct imap_ll *c) { return NULL; }
void free_rfc822(struct rfc822 *r) { free(r->hdrs.subject); free(r); }
unsigned int hashfn(unsigned char *k, unsigned int length, unsigned int initval) { return length; }
/* an ideal checksum: contents of up to 15 bytes are told apart */
static int md5n;
void MD5Init(MD5_CTX *c) { memset(c->digest, 0, 16); md5n = 0; }
void MD5Update(MD5_CTX *c, unsigned const char *p, unsigned int n)
{ unsigned i; for (i = 0; i < n && md5n < 15; i++) c->digest[md5n++] = p[i]; c->digest[15] = c->digest[15] + n; }
void MD5Final(MD5_CTX *c) { }
/* ---- message parser stand-in ---- */
static int need_at[FMAX], chunk_start[16], chunk_end[16], nchunk;
static enum data_to_rfc822_error verdict(char *data, int start, int len)
{
#ifdef COAL
  int i, j;
  for (i = 0; i < nchunk && chunk_start[i] != start; i++) ;
  CHECK(i < nchunk, "a message starts right after a separator line");
  for (j = i; j < nchunk && chunk_end[j] != start + len; j++) ;
  CHECK(j < nchunk, "a message ends right before a separator line or at the end");
  return j - i < need_at[i] ? DTR8_MISSING_END : DTR8_OK;
#else
  return DTR8_OK;
#endif
}
struct rfc822 *data_to_rfc822(struct msg_src *src, char *data, int len, enum data_to_rfc822_error *error)
{
  struct rfc822 *r = malloc(sizeof *r); int i;
  CHECK(src->type == MS_MBOX && (int) src->len == len && src->start >= 0 && src->start + len <= flen, "messages lie inside the file");
  for (i = 0; i < len; i++) CHECK(data[i] == file[src->start + i], "the text parsed is the text at that place");
  memset(r, 0, sizeof *r); r->atts.next = r->atts.prev = &r->atts;
  *error = verdict(data, src->start, len);
  r->hdrs.date = 9000 + src->start; r->hdrs.flags.seen = 1;
#ifdef INCR
  { char s[2] = { data[0], 0 }; r->hdrs.subject = strdup(s); }
#endif
  return r;
}
static void run(struct database *db)
{ build_mbox_lists(db, "b", "/m", NULL, 0); update_database(db, NULL, 0, 0, NULL); CHECK(mapped == 0, "files are released after scanning"); }

/* exp_s/exp_l: the messages the file holds */
static int exp_s[16], exp_l[16], nexp;
static void check_live(struct database *db)
{
  int i, k = 0;
  CHECK(db->n_mboxen == 1 && db->mboxen[0].n_msgs == nexp, "the number of messages in the mailbox is right");
  for (i = 0; i < db->n_msgs; i++) {
    if (db->type[i] == MTY_DEAD) continue;
    CHECK(k < nexp, "no message is found that is not there");
    CHECK(db->type[i] == MTY_MBOX && db->msgs[i].src.mbox.file_index == 0 && db->msgs[i].src.mbox.msg_index == k, "messages are numbered by their place");
    CHECK(db->mboxen[0].start[k] == exp_s[k] && (int) db->mboxen[0].len[k] == exp_l[k], "each message runs from after its separator line to the next separator or the end");
    CHECK(db->msgs[i].date == 9000 + exp_s[k] && db->msgs[i].seen == 1, "date and flags come from that message");
    k++;
  }
  CHECK(k == nexp, "every message in the mailbox is found");
}
#if defined(SPLIT)
#ifndef L0
#define L0 1
#endif
#ifndef L1
#define L1 4
#endif
void harness(void)
{
  struct database *db = new_database(3);
  int n0 = CHOOSE(0, L0), n1 = CHOOSE(0, L1), n2 = CHOOSE(1, 2), i, p1, p2;
  for (i = 0; i < n0; i++) file[flen++] = sym_u8();
  p1 = flen; puts0(SEP);
  for (i = 0; i < n1; i++) file[flen++] = sym_u8();
  p2 = flen; puts0(SEP);
  for (i = 0; i < n2; i++) file[flen++] = sym_u8();
  {
    int a = n0 == 0 || file[p1-1] == '\n', b = file[p2-1] == '\n';
    if (a && b) { exp_s[0] = p1 + SEPL; exp_l[0] = p2 - exp_s[0]; exp_s[1] = p2 + SEPL; exp_l[1] = flen - exp_s[1]; nexp = 2; }
    else if (a) { exp_s[0] = p1 + SEPL; exp_l[0] = flen - exp_s[0]; nexp = 1; }
    else if (b) { exp_s[0] = p2 + SEPL; exp_l[0] = flen - exp_s[0]; nexp = 1; }
    COVER_IF(a && b, "two messages"); COVER_IF(!a && !b, "no message"); COVER_IF(a && !b, "separator text inside a line");
  }
  run(db);
  check_live(db);
}
#elif defined(MMDF)
#ifndef L1
#define L1 8
#endif
static int sep(int p) { int i, r = p + 5 <= flen; if (!r) return 0; if (p) r = vand(r, file[p-1] == '\n'); for (i = 0; i < 4; i++) r = vand(r, file[p+i] == 1); return vand(r, file[p+4] == '\n'); }
void harness(void)
{
  struct database *db = new_database(3);
  int n1 = CHOOSE(6, L1), i, p, in = 0;
  puts0("\1\1\1\1\n");
  for (i = 0; i < n1; i++) { file[flen] = sym_u8(); ASSUME(vor(file[flen] == 1, vor(file[flen] == '\n', file[flen] == 'x'))); flen++; }
#ifdef TWO
  puts0("\n\1\1\1\1\n\1\1\1\1\nzz\n\1\1\1\1\n");
#endif
  for (p = 0; p < flen; p++) {
    if (!sep(p)) continue;
    if (in) { exp_l[nexp-1] = p - exp_s[nexp-1]; in = 0; }
    else { ASSUME(p + 5 < flen); exp_s[nexp++] = p + 5; in = 1; }
    p += 4;
  }
  if (in) exp_l[nexp-1] = flen - exp_s[nexp-1];
  run(db);
  check_live(db);
  COVER_IF(nexp == 1 && in, "unterminated"); COVER_IF(nexp >= 1 && !in, "terminated");
}
#elif defined(COAL)
#ifndef NC
#define NC 4
#endif
void harness(void)
{
  struct database *db = new_database(3);
  int i;
  nchunk = CHOOSE(1, NC);
  for (i = 0; i < nchunk; i++) {
    puts0(SEP); chunk_start[i] = flen; puts0(i & 1 ? "yz\n" : "x\n"); chunk_end[i] = flen;
    need_at[i] = CHOOSE(0, 3);
  }
  for (i = 0; i < nchunk; ) {
    int n = i + need_at[i] < nchunk ? need_at[i] : 0;
    exp_s[nexp] = chunk_start[i]; exp_l[nexp] = chunk_end[i + n] - chunk_start[i]; nexp++; i += n + 1;
    COVER_IF(n > 0, "joined"); 
  }
  run(db);
  check_live(db);
}
#elif defined(INCR)
#ifndef NO
#define NO 3
#endif
/* letter b identifies a message, c is an arbitrary further byte of it, big adds one more */
static void msg(unsigned char b, unsigned char c, int big)
{ char t[4]; t[0] = b; t[1] = c; t[2] = big ? '.' : '\n'; t[3] = '\n'; puts0(SEP); exp_s[nexp] = flen; put(t, big ? 4 : 3); exp_l[nexp] = flen - exp_s[nexp]; nexp++; }
static void words(struct database *db)
{
  int i, k = 0, j, v, f;
  for (i = 0; i < db->n_msgs; i++) {
    if (db->type[i] == MTY_DEAD) continue;
    for (j = 0, f = 0; j < db->subject->size; j++) {
      struct int_list_reader r; struct token *t = db->subject->tokens[j];
      if (!t) continue;
      matches_int_list_reader_init(&r, &t->match0);
      while (int_list_reader_read(&r, &v)) if (v == i) { f++; CHECK(t->text[0] == file[exp_s[k]], "the words indexed for a message are those of the message now at its place"); }
    }
    CHECK(f == 1, "each message is indexed under its own words");
    k++;
  }
}
void harness(void)
{
  struct database *db = new_database(3);
  int no = CHOOSE(0, NO), na = CHOOSE(0, 2), i, any = 0; unsigned char let[NO+2], c[NO+2]; int big[NO+2], keep[NO+2];
  mtime_now = sym_u32(); ASSUME(mtime_now > 0);
  for (i = 0; i < no + na; i++) { let[i] = 'a' + i; c[i] = sym_u8(); /* no message is part of another one's text */ ASSUME(vand(vand(c[i] != '\n', c[i] != 0), vand(c[i] != '.', vor(c[i] < 'a', c[i] > 'z')))); big[i] = i < no ? CHOOSE(0, 1) : i & 1; }
  for (i = 0; i < no; i++) msg(let[i], c[i], big[i]);
  run(db);
  check_live(db); words(db);
  /* as stored and loaded again: only what the index file keeps */
  db->mboxen[0].file_mtime = db->mboxen[0].current_mtime; db->mboxen[0].file_size = db->mboxen[0].current_size;
  /* messages deleted and appended */
  flen = 0; nexp = 0;
  for (i = 0; i < no; i++) { keep[i] = CHOOSE(0, 1); if (keep[i]) msg(let[i], c[i], big[i]); else any = 1; }
  for (; i < no + na; i++) msg(let[i], c[i], big[i]);
  { int now = sym_u32(); ASSUME(now > 0); if ((any || na) && flen == (int) db->mboxen[0].file_size) ASSUME(now != mtime_now); mtime_now = now; }   /* a change shows in time or size */
  run(db);
  check_live(db); words(db);
  COVER_IF(any && na, "deleted and appended"); COVER_IF(any && !na && nexp, "only deleted");
}
#elif defined(FROMLINE)
/* which lines separate messages: the documented shape, with any one character replaced by anything */
static const char cls[]  = "Aaa Aaa Dd dd:dd:dd dddd";
static const char base[] = "Mon Mar 15 14:36:40 2021";
static int in_class(int t, unsigned char c)
{
  int white = vor(c == ' ', c == '\t'), digit = vand(c >= '0', c <= '9');
  if (t == 'A') return vand(c >= 'A', c <= 'Z');
  if (t == 'a') return vand(c >= 'a', c <= 'z');
  if (t == 'd') return digit;
  if (t == 'D') return vor(digit, white);
  if (t == ' ') return white;
  return c == t;
}
static const char *const who[7] = { "a@bc ", "<a.b@ce> ", "- ", " ", "\"q r\"@[1.2] ", "MAILER-DAEMON  ", "@rt:me@dom-ain.x " };
static const char *const form[9] = { "Mon Mar 15 14:36 2021", "Mon Mar 5 14:36:40 2021", "Mon Mar 15 14:36:40 PST 2021", "Mon Mar 15 14:36:40 2021 +0100", "Mon Mar 15 14:36:40 +0100 2021 ", "Mon, 15 Mar 2021 21:36:40 PST", "Mon Mar 15 14:36:40 2021\r", "Mon Mar 15 14:36:40 PST DST 2021", "Mon Mar 15 14:36:40 2021 remote from here" };
void harness(void)
{
  struct database *db = new_database(3);
  int w = CHOOSE(0, 6), i, pos = CHOOSE(0, (int) sizeof cls - 1), ok = 1, p;
  puts0("From "); puts0(who[w]);
  p = flen;
  if (!cls[pos]) puts0(form[CHOOSE(0, 8)]);
  else {
    puts0(base);
    file[p+pos] = sym_u8();
    ok = in_class(pos == 9 ? 'D' : cls[pos], file[p+pos]);
  }
  file[flen++] = '\n';
  exp_s[0] = flen; puts0("z\n"); exp_l[0] = 2;
  nexp = ok ? 1 : 0;
  run(db);
  if (ok) { check_live(db); COVER("separator"); COVER_IF(!cls[pos], "another form"); }
  else { CHECK(db->n_msgs == 0, "a line that does not end in a date is not a separator"); COVER("rejected"); }
}
#endif
