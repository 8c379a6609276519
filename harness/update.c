/* Bringing the index up to date with message-per-file folders (and remote
 * messages), and grouping messages into threads. */
#define VH_NAMES
#include "vh.h"
#include "vhsys.h"
#undef stat
#undef lstat
#include "mairix.h"
#include "reader.h"
#include "imapinterface.h"
#ifndef K
#define K 3
#endif
#ifndef R
#define R 1
#endif
/* ---- the world ---- */
static struct rfc822 *mk(time_t date)
{ struct rfc822 *r = malloc(sizeof *r); memset(r, 0, sizeof *r); r->atts.next = r->atts.prev = &r->atts; r->hdrs.date = date; return r; }
void free_rfc822(struct rfc822 *r) { free(r->hdrs.message_id); free(r->hdrs.references); free(r->hdrs.in_reply_to); free(r->hdrs.subject); free(r); }
int add_mbox_messages(struct database *db) { return 0; }
void cull_dead_mboxen(struct database *db) { }
void free_mboxen(struct database *db) { }

#if defined(THREADS)
/* message i: its own id and R references, letters */
static char id[K][R+1]; static int place[K];
static char hl[K*(R+1)]; static unsigned hh[K*(R+1)]; static int nh;
unsigned int hashfn(unsigned char *k, unsigned int length, unsigned int initval)
{
  int i;
  CHECK(length == 1, "message ids are the text between the angle brackets");
  for (i = 0; i < nh; i++) if (hl[i] == (char) k[0]) return hh[i];
  hl[nh] = k[0];
#ifdef FIXORDER
  hh[nh] = FIXORDER ? 900 - nh : 100 + nh;
#else
  hh[nh] = CHOOSE(0, 1) ? 900 - nh : 100 + nh;
#endif
  return hh[nh++];
}
static char *angled(const char *ids, int n)
{ char *s = malloc(4*n + 1); int i, k = 0; for (i = 0; i < n; i++) { if (i) s[k++] = ' '; s[k++] = '<'; s[k++] = ids[i]; s[k++] = '>'; } s[k] = 0; return s; }
static struct rfc822 *scan(int i)
{
  struct rfc822 *r = mk(1000 + i);
  r->hdrs.message_id = angled(&id[i][0], 1);
  if (place[i] == 1) r->hdrs.in_reply_to = angled(&id[i][1], R);
  if (place[i] == 2) r->hdrs.references = angled(&id[i][1], R);
  return r;
}
struct rfc822 *make_rfc822(char *fn) { return scan(fn[0] - 'a'); }
struct rfc822 *make_rfc822_from_imap(const char *fn, struct imap_ll *c) { return scan(fn[0] - 'a'); }
int vh_stat(const char *p, struct stat *sb) { memset(sb, 0, sizeof *sb); sb->st_mode = S_IFREG; sb->st_mtime = 5; sb->st_size = 10; return 0; }
void harness(void)
{
  struct database *db = new_database(7);
  struct msgpath mp[K];
  int i, j, a, b, split = CHOOSE(0, K - 1), same[K][K], gone = CHOOSE(0, 1) && split > 0, n;
  memset(mp, 0, sizeof mp);
  for (i = 0; i < K; i++) {
    char p[2] = { 'a' + i, 0 };
    mp[i].type = MTY_FILE; mp[i].source_ft = FT_MAILDIR; mp[i].src.mpf.path = strdup(p);
#ifdef FIXORDER
    place[i] = 2;
#else
    place[i] = CHOOSE(0, 2);
#endif
    for (a = 0; a <= R; a++) { id[i][a] = sym_u8(); ASSUME(id[i][a] >= 'a' && id[i][a] < 'a' + K*(R+1)); }
  }
  /* one or two indexing runs; in the second the first message may be gone */
  if (split) update_database(db, mp, split, 0, NULL);
  update_database(db, mp + gone, K - gone, 0, NULL);
  n = K;
  CHECK(db->n_msgs == n, "every message is indexed once");
  for (i = 0; i < K; i++) for (j = 0; j < K; j++) {
    same[i][j] = i == j;
    for (a = 0; a <= (place[i] ? R : 0); a++) for (b = 0; b <= (place[j] ? R : 0); b++) same[i][j] = vor(same[i][j], id[i][a] == id[j][b]);
  }
  for (a = 0; a < K; a++) for (i = 0; i < K; i++) for (j = 0; j < K; j++) same[i][j] = vor(same[i][j], vand(same[i][a], same[a][j]));
  for (i = 0; i < K; i++) {
    CHECK(db->msgs[i].tid >= 0 && db->msgs[i].tid < K, "thread numbers are below the number of messages");
    for (j = 0; j < i; j++) CHECK((db->msgs[i].tid == db->msgs[j].tid) == same[i][j], "two messages share a thread exactly when a chain of shared ids links them");
    OBSERVE(db->msgs[i].tid);
  }
  if (gone) COVER("linked through a removed message");
  if (db->msgs[0].tid == db->msgs[K-1].tid) COVER("one thread"); else COVER("two threads");
}
#elif defined(SETS)
/* every way in which K messages can share NI ids */
static int set[K];
unsigned int hashfn(unsigned char *k, unsigned int length, unsigned int initval)
{ CHECK(length == 1, "message ids are the text between the angle brackets"); return k[0]; }
static struct rfc822 *scan(int i)
{
  struct rfc822 *r = mk(1000 + i); int a; char rest[4*NI+1]; int k = 0;
  for (a = 0; a < NI; a++) {
    char t[4] = { '<', 'p' + a, '>', 0 };
    if (!(set[i] & 1 << a)) continue;
    if (!r->hdrs.message_id && (a + i) % 2) r->hdrs.message_id = strdup(t);
    else if (!r->hdrs.in_reply_to && (a + i) % 3 == 0) r->hdrs.in_reply_to = strdup(t);
    else { memcpy(rest + k, t, 3); k += 3; }
  }
  rest[k] = 0; if (k) r->hdrs.references = strdup(rest);
  return r;
}
struct rfc822 *make_rfc822(char *fn) { return scan(fn[0] - 'a'); }
struct rfc822 *make_rfc822_from_imap(const char *fn, struct imap_ll *c) { return scan(fn[0] - 'a'); }
static unsigned mt;
int vh_stat(const char *p, struct stat *sb) { memset(sb, 0, sizeof *sb); sb->st_mode = S_IFREG; sb->st_mtime = mt; sb->st_size = 10; return 0; }
void harness(void)
{
  struct database *db = new_database(7);
  struct msgpath mp[K];
  int i, j, a, split = CHOOSE(0, 1) ? K - 2 : 0, same[K][K];
  mt = sym_u32();
  memset(mp, 0, sizeof mp);
  for (i = 0; i < K; i++) {
    char p[2] = { 'a' + i, 0 };
    mp[i].type = MTY_FILE; mp[i].source_ft = FT_MAILDIR; mp[i].src.mpf.path = strdup(p);
    set[i] = CHOOSE(0, (1 << NI) - 1);
  }
  if (split) update_database(db, mp, split, 0, NULL);
  update_database(db, mp, K, 0, NULL);
  CHECK(db->n_msgs == K, "every message is indexed once");
  for (i = 0; i < K; i++) for (j = 0; j < K; j++) same[i][j] = i == j || (set[i] & set[j]);
  for (a = 0; a < K; a++) for (i = 0; i < K; i++) if (same[i][a]) for (j = 0; j < K; j++) same[i][j] |= same[a][j];
  for (i = 0; i < K; i++) {
    CHECK(db->msgs[i].tid >= 0 && db->msgs[i].tid < K, "thread numbers are below the number of messages");
    for (j = 0; j < i; j++) CHECK((db->msgs[i].tid == db->msgs[j].tid) == !!same[i][j], "two messages share a thread exactly when a chain of shared ids links them");
    OBSERVE(db->msgs[i].tid);
  }
  if (db->msgs[0].tid == db->msgs[K-1].tid) COVER("one thread"); else COVER("two threads");
}
#else
/* ---- file folders ---- */
static unsigned newmt[K], newsz[K]; static int kind[K], scanned[K], parsed[K]; static char nm[K];
unsigned int hashfn(unsigned char *k, unsigned int length, unsigned int initval) { return k[0]; }
static int which(const char *p) { int i; for (i = 0; i < K; i++) if (nm[i] == p[0]) { CHECK(p[1] == 0, "paths are whole"); return i; } CHECK(0, "only listed paths are looked at"); return 0; }
static struct rfc822 *scan(const char *fn)
{
  int i = which(fn); struct rfc822 *r; char s[2] = { '0' + i, 0 };
  scanned[i]++;
  if (!parsed[i]) return NULL;
  r = mk(5000 + i); r->hdrs.subject = strdup(s); return r;
}
struct rfc822 *make_rfc822(char *fn) { return scan(fn); }
struct rfc822 *make_rfc822_from_imap(const char *fn, struct imap_ll *c) { return scan(fn); }
int vh_stat(const char *p, struct stat *sb)
{
  int i = which(p);
  memset(sb, 0, sizeof *sb);
  if (kind[i] == 0) { errno = ENOENT; return -1; }
  sb->st_mode = kind[i] == 1 ? S_IFREG : S_IFDIR; sb->st_mtime = newmt[i]; sb->st_size = newsz[i];
  return 0;
}
void harness(void)
{
  struct database *db = new_database(7);
  struct msgpath mp[K];
  int i, j, n = 0, fast = CHOOSE(0, 1), in_db[K], listed[K], old[K], imap[K], r, nn, expect_new = 0, expect_dead = 0, m;
  unsigned oldmt[K], oldsz[K];
  memset(mp, 0, sizeof mp);
  nn = CHOOSE(0, K);
  for (i = 0; i < nn; i++) {
    
#ifdef SYMNAMES
    nm[i] = sym_u8(); ASSUME(nm[i] > 0); if (i) ASSUME(nm[i] > nm[i-1]);
#else
    nm[i] = 'b' + 2*i;
#endif

    in_db[i] = CHOOSE(0, 1); listed[i] = CHOOSE(0, 1); kind[i] = CHOOSE(0, 2); parsed[i] = CHOOSE(0, 1); imap[i] = i == nn - 1 ? CHOOSE(0, 1) : 0;
    oldmt[i] = sym_u32(); newmt[i] = sym_u32(); newsz[i] = sym_u32(); oldsz[i] = sym_u32();
    if (imap[i]) kind[i] = 1;
    old[i] = -1;
    if (in_db[i]) {
      char p[2] = { nm[i], 0 }, s[2] = { '0' + i, 0 };
      maybe_grow_message_arrays(db);
      m = old[i] = db->n_msgs++;
      memset(&db->msgs[m], 0, sizeof db->msgs[m]);
      db->type[m] = imap[i] ? MTY_IMAP : MTY_FILE; db->msgs[m].src.mpf.path = strdup(p); db->msgs[m].src.mpf.mtime = imap[i] ? 0 : oldmt[i]; db->msgs[m].src.mpf.size = imap[i] ? 0 : oldsz[i]; db->msgs[m].date = 4000 + i;
      add_token_in_file(m, 7, s, db->subject);
    }
    if (listed[i]) {
      char p[2] = { nm[i], 0 };
      mp[n].type = imap[i] ? MTY_IMAP : MTY_FILE; mp[n].source_ft = FT_MAILDIR; mp[n].src.mpf.path = strdup(p); n++;
    }
  }
  r = update_database(db, mp, n, fast, NULL);
  for (i = 0; i < nn; i++) {
    int live = 0, at = -1, keep, here;
    for (m = 0; m < db->n_msgs; m++)
      if (db->type[m] != MTY_DEAD && db->msgs[m].src.mpf.path[0] == nm[i]) { live++; at = m; }
    here = listed[i] && kind[i] == 1;
    keep = in_db[i] && listed[i] && (fast || imap[i] || (kind[i] == 1 && oldmt[i] == newmt[i] && oldsz[i] == newsz[i]));
    CHECK(live == (here || keep), "each message present is in the index exactly once, others are not");
    if (keep) {
      CHECK(at == old[i] && !scanned[i], "an unchanged message keeps its entry and is not read again");
      CHECK(db->msgs[at].date == 4000 + i && (imap[i] || (db->msgs[at].src.mpf.mtime == oldmt[i] && db->msgs[at].src.mpf.size == oldsz[i])), "details of unchanged messages are kept");
      COVER("kept");
    } else if (here) {
      int v, f = 0; struct int_list_reader l;
      CHECK(scanned[i] == 1 && at != old[i], "a new or changed message is read, once, into an entry of its own");
      CHECK(db->type[at] == (imap[i] ? MTY_IMAP : MTY_FILE), "a new message keeps its kind");
      if (!imap[i]) CHECK(db->msgs[at].src.mpf.mtime == newmt[i] && db->msgs[at].src.mpf.size == newsz[i], "time and size of a new message are recorded");
      CHECK(db->msgs[at].date == (parsed[i] ? 5000 + i : 0), "the date of a new message is recorded");
      for (j = 0; j < db->subject->size; j++) if (db->subject->tokens[j] && db->subject->tokens[j]->text[0] == '0' + i) {
        matches_int_list_reader_init(&l, &db->subject->tokens[j]->match0);
        while (int_list_reader_read(&l, &v)) if (v == at) f = 1;
      }
      CHECK(f == parsed[i], "a new message's words are indexed under it");
      expect_new = 1;
      COVER_IF(in_db[i], "changed"); COVER_IF(!in_db[i], "new");
    }
    if (in_db[i] && !keep) { CHECK(db->type[old[i]] == MTY_DEAD, "a message that is gone or was replaced no longer counts"); expect_dead = 1; }
  }
  CHECK(!(expect_new || expect_dead) || r, "the caller is told to write the index when something changed");
  for (m = 0; m < db->n_msgs; m++) if (db->type[m] != MTY_DEAD) CHECK(db->msgs[m].tid >= 0 && db->msgs[m].tid < db->n_msgs, "thread numbers are valid");
  OBSERVE(db->n_msgs); OBSERVE(!!r);
}
#endif
