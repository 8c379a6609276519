/* Several mailboxes over several runs: the index always describes the
 * messages that are in the mailboxes present. */
#define VH_NAMES
#include "vh.h"
#include "vhsys.h"
#undef stat
#undef lstat
#undef opendir
#undef readdir
#undef closedir
#include "mairix.h"
#include "reader.h"
#include "md5.h"
#include "imapinterface.h"
#ifdef ONE
#define NB 1
#define LIST "/p"
#else
#define NB 2
#define LIST "/p:/q"
#endif
#define FMAX 240
#define SEP "From a@bc Mon Mar 15 14:36:40 2021\n"
#define SEPL ((int) sizeof SEP - 1)
static struct box { char path[3]; int here, unreadable, unread; char file[FMAX]; int flen; unsigned mtime; int nm; char let[8]; unsigned char c[8]; int at[8], len[8]; } B[NB];
static int mapped;
static struct box *box(const char *p) { int b; for (b = 0; b < NB; b++) if (!strcmp(p, B[b].path)) return &B[b]; CHECK(0, "only the listed folders are looked at"); return &B[0]; }
int vh_stat(const char *p, struct stat *sb)
{ struct box *b = box(p); memset(sb, 0, sizeof *sb); if (!b->here) { errno = ENOENT; return -1; } sb->st_mode = S_IFREG; sb->st_mtime = b->mtime; sb->st_size = b->flen; return 0; }
int vh_lstat(const char *p, struct stat *sb) { return vh_stat(p, sb); }
DIR *vh_opendir(const char *p) { return NULL; }
struct dirent *vh_readdir(DIR *d) { return NULL; }
int vh_closedir(DIR *d) { return 0; }
void create_ro_mapping(const char *fn, unsigned char **data, int *len, enum ro_map_compressed_behaviour cb)
{
  struct box *b = box(fn);
  CHECK(b->here, "only what is there is read");
  if (b->unreadable) { *data = NULL; *len = 1 + (int) CHOOSE(0, 1) * -2; return; } /* what the real one leaves there */
  *len = b->flen; if (!b->flen) { *data = NULL; return; }
  *data = malloc(b->flen); memcpy(*data, b->file, b->flen); mapped++;
}
void free_ro_mapping(unsigned char *d, int len) { free(d); mapped--; }
char *format_msg_src(struct msg_src *s) { return "x"; }
struct rfc822 *make_rfc822(char *fn) { return NULL; }
struct rfc822 *make_rfc822_from_imap(const char *fn, struct imap_ll *c) { return NULL; }
void free_rfc822(struct rfc822 *r) { free(r->hdrs.subject); free(r); }
unsigned int hashfn(unsigned char *k, unsigned int length, unsigned int initval) { return k[0]; }
static int md5n;
void MD5Init(MD5_CTX *c) { memset(c->digest, 0, 16); md5n = 0; }
void MD5Update(MD5_CTX *c, unsigned const char *p, unsigned int n)
{ unsigned i; for (i = 0; i < n && md5n < 15; i++) c->digest[md5n++] = p[i]; c->digest[15] = c->digest[15] + n; }
void MD5Final(MD5_CTX *c) { }
struct rfc822 *data_to_rfc822(struct msg_src *src, char *data, int len, enum data_to_rfc822_error *error)
{
  struct rfc822 *r = malloc(sizeof *r); int i; struct box *b = box(src->filename);
  CHECK(src->start >= 0 && src->start + len <= b->flen, "messages lie inside the file");
  for (i = 0; i < len; i++) CHECK(data[i] == b->file[src->start + i], "the text parsed is the text at that place");
  memset(r, 0, sizeof *r); r->atts.next = r->atts.prev = &r->atts;
  *error = DTR8_OK; r->hdrs.date = 900 + data[0];
  { char s[2] = { data[0], 0 }; r->hdrs.subject = strdup(s); }
  return r;
}
static void build(struct box *b)
{
  int i; static const char sep[] = SEP;
  b->flen = 0;
  for (i = 0; i < b->nm; i++) {
    memcpy(b->file + b->flen, sep, SEPL); b->flen += SEPL; b->at[i] = b->flen;
    b->file[b->flen++] = b->let[i]; b->file[b->flen++] = b->c[i]; b->file[b->flen++] = '\n'; b->len[i] = 3;
  }
}
static int letters;
static void append(struct box *b) { b->c[b->nm] = sym_u8(); ASSUME(vand(b->c[b->nm] != '\n', vand(b->c[b->nm] != 0, vor(b->c[b->nm] < 'A', b->c[b->nm] > 'Z')))); b->let[b->nm++] = 'A' + letters++; }
static void drop(struct box *b, int k) { int i; b->nm--; for (i = k; i < b->nm; i++) { b->let[i] = b->let[i+1]; b->c[i] = b->c[i+1]; } }
static void check(struct database *db)
{
  int b, k, m, f, j, v, live = 0, total = 0;
  for (m = 0; m < db->n_msgs; m++) if (db->type[m] != MTY_DEAD) {
    const char *p = db->mboxen[db->msgs[m].src.mbox.file_index].path;
    CHECK(p != NULL, "a live message's mailbox is there");
    if (!box(p)->unreadable) live++;
  }
  for (b = 0; b < NB; b++) {
    if (!B[b].here || B[b].unreadable) continue;
    for (k = 0; k < B[b].nm; k++) {
      int at = -1, n = 0, n_w = 0;
      total++;
      for (m = 0; m < db->n_msgs; m++) {
        struct mbox *mb;
        if (db->type[m] != MTY_MBOX) continue;
        f = db->msgs[m].src.mbox.file_index; CHECK(f >= 0 && f < db->n_mboxen, "a message's mailbox is in the table");
        mb = &db->mboxen[f]; CHECK(mb->path != NULL, "a live message's mailbox is there");
        if (!strcmp(mb->path, B[b].path) && db->msgs[m].src.mbox.msg_index == k) { at = m; n++; CHECK(k < mb->n_msgs && mb->start[k] == B[b].at[k] && (int) mb->len[k] == B[b].len[k], "each message has its present place"); }
      }
      CHECK(n == 1, "every message in a mailbox is in the index, once");
      CHECK(db->msgs[at].date == 900 + B[b].let[k], "a message has its own date");
      for (j = 0; j < db->subject->size; j++) {
        struct int_list_reader r; struct token *t = db->subject->tokens[j];
        if (!t) continue;
        matches_int_list_reader_init(&r, &t->match0);
        while (int_list_reader_read(&r, &v)) if (v == at) { n_w++; CHECK((t->text[0] | 32) == (B[b].let[k] | 32), "a message has its own words"); }
      }
      CHECK(n_w == 1, "a message has its own words");
    }
  }
  CHECK(live == total, "no other message is in the index");
}
static int present(void) { int b, n = 0; for (b = 0; b < NB; b++) n += B[b].here; return n; }
void harness(void)
{
  struct database *db = new_database(3); int run, b, i, failed = 0, moved = 0, back = 0, gone[NB] = { 0 };
  for (b = 0; b < NB; b++) { B[b].path[0] = '/'; B[b].path[1] = b ? 'q' : 'p'; }
  for (run = 0; run < RUNS; run++) {
    int change = 0, r;
    for (b = 0; b < NB; b++) {
      struct box *x = &B[b]; int was = x->here, old = x->flen, op, changed = 1; unsigned mt;
      x->unread = x->unreadable; x->unreadable = 0;
      op = run == 0 ? CHOOSE(0, 2) : CHOOSE(0, OPS);
      if (run == 0) { x->here = op > 0; for (i = 0; i < op; i++) append(x); change |= op > 0; }
      else if (op == 0) { if (was && x->nm) { change |= !x->unread; gone[b] = 1; } x->here = 0; x->nm = 0; }
      else {
        if (op == 2) { if (!x->nm) return; drop(x, 0); }
        else if (op == 3) append(x);
        else if (op == 5) { append(x); x->unreadable = 1; failed = 1; }
        else if (op == 4) { if (!x->nm) return; drop(x, 0); append(x); }
        changed = op > 1; x->here = 1; if (changed && op != 5 && !x->unread) change = 1;
        if (!was && gone[b] && x->nm) back = 1;
      }
      build(x);
      mt = sym_u32(); ASSUME(mt > 0);
      if (changed && was && x->here && x->flen == old) ASSUME(mt != x->mtime);
      if (!changed && was && CHOOSE(0, 1)) mt = x->mtime;
      x->mtime = mt;
    }
    if (NB > 1 && !present()) return; /* the program needs a folder */
    build_mbox_lists(db, "b", LIST, NULL, 0);
    r = update_database(db, NULL, 0, 0, NULL);
    CHECK(mapped == 0, "files are released after scanning");
    CHECK(r || !change, "the caller is told to write the index when something changed");
    check(db);
    if (CHOOSE(0, 1)) { int before = db->n_msgs; cull_dead_messages(db, 0); check(db); for (i = 0; i < db->n_msgs; i++) CHECK(db->type[i] != MTY_DEAD, "purging leaves no deleted messages"); if (db->n_msgs < before && db->n_msgs) moved = 1; }
    /* as stored and loaded again */
    for (i = 0; i < db->n_mboxen; i++) { db->mboxen[i].file_mtime = db->mboxen[i].current_mtime; db->mboxen[i].file_size = db->mboxen[i].current_size; }
  }
  COVER_IF(moved, "purged"); COVER_IF(back, "came back"); COVER_IF(failed, "could not be read");
}
