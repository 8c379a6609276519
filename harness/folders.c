/* Which folders and files a folder list selects: the real list splitting,
 * wildcard matching, recursion, omission and folder recognition, over a small
 * file system kept in memory. */
#define VH_NAMES
#include "vh.h"
#include "vhsys.h"
#undef stat
#undef lstat
#undef opendir
#undef readdir
#undef closedir
#include "mairix.h"
#include "imapinterface.h"
void create_ro_mapping(const char *fn, unsigned char **data, int *len, enum ro_map_compressed_behaviour cb);
void free_ro_mapping(unsigned char *d, int len) { }
char *format_msg_src(struct msg_src *s) { return "x"; }
struct rfc822 *make_rfc822(char *fn) { struct rfc822 *r = malloc(sizeof *r); memset(r, 0, sizeof *r); r->atts.next = r->atts.prev = &r->atts; return r; }
struct rfc822 *make_rfc822_from_imap(const char *fn, struct imap_ll *c) { return NULL; }
struct rfc822 *data_to_rfc822(struct msg_src *src, char *data, int len, enum data_to_rfc822_error *error) { return NULL; }
void free_rfc822(struct rfc822 *r) { }
unsigned int hashfn(unsigned char *k, unsigned int length, unsigned int initval) { return length; }
#include "md5.h"
void MD5Init(MD5_CTX *c) { } void MD5Update(MD5_CTX *c, unsigned const char *p, unsigned int n) { } void MD5Final(MD5_CTX *c) { }

/* ---- the file system ---- */
enum kind { NONE, REG, FIFO, DIRK, LINK };
#define MAXN 40
static struct node { int parent; char name[24]; enum kind k; unsigned mt, sz; } N[MAXN];
static int nn;
static int mk(int parent, const char *name, enum kind k)
{ int i; CHECK(nn < MAXN, "harness: tree too small"); N[nn].parent = parent; for (i = 0; name[i]; i++) N[nn].name[i] = name[i]; N[nn].name[i] = 0; N[nn].k = k; return nn++; }
static int child(int d, const char *p, int n)
{
  int i, j;
  for (i = 0; i < nn; i++) {
    if (N[i].parent != d || N[i].k == NONE) continue;
    for (j = 0; j < n; j++) if (N[i].name[j] != p[j]) break;
    if (j == n && !N[i].name[n]) return i;
  }
  return -1;
}
#define ROOT (-2)
/* the working directory is the root too */
static int walk(const char *p)
{
  int at = ROOT, n;
  if (!*p) return -1;
  while (*p) {
    if (*p == '/') { p++; continue; }
    for (n = 0; p[n] && p[n] != '/'; n++) ;
    if (n == 1 && p[0] == '.') { p += n; continue; }
    if (at != ROOT && N[at].k != DIRK) return -1;
    at = child(at, p, n);
    if (at == -1) return -1;
    p += n;
  }
  return at;
}
static char asked[8][16]; static int nasked, record;
static int st(const char *p, struct stat *sb, int follow)
{
  int i;
  if (record) { CHECK(nasked < 8 && strlen(p) < 16, "only the folders listed are looked at"); strcpy(asked[nasked++], p); errno = ENOENT; return -1; }
  i = walk(p);
  memset(sb, 0, sizeof *sb);
  if (i == -1) { errno = ENOENT; return -1; }
  if (i == ROOT) { sb->st_mode = S_IFDIR; return 0; }
  sb->st_mode = N[i].k == REG ? S_IFREG : N[i].k == DIRK ? S_IFDIR : N[i].k == FIFO ? S_IFIFO : follow ? S_IFREG : S_IFLNK;
  sb->st_mtime = N[i].mt; sb->st_size = N[i].sz;
  if (N[i].k == LINK && !follow) { sb->st_mtime = 3; sb->st_size = 5; }
  return 0;
}
int vh_stat(const char *p, struct stat *sb) { return st(p, sb, 1); }
int vh_lstat(const char *p, struct stat *sb) { return st(p, sb, 0); }
static struct dh { int node, pos; struct dirent de; } dh[12]; static int ndh;
DIR *vh_opendir(const char *p)
{
  int i = walk(p);
  if (i == -1 || (i != ROOT && N[i].k != DIRK)) { errno = ENOENT; return NULL; }
  CHECK(ndh < 12, "directories are closed after use");
  dh[ndh].node = i; dh[ndh].pos = -2;
  return (DIR *) &dh[ndh++];
}
struct dirent *vh_readdir(DIR *d)
{
  struct dh *h = (struct dh *) d;
  if (h->pos == -2) { h->pos++; strcpy(h->de.d_name, ".."); return &h->de; }
  if (h->pos == -1) { h->pos++; strcpy(h->de.d_name, "."); return &h->de; }
  while (h->pos < nn) {
    int i = h->pos++;
    if (N[i].parent == h->node && N[i].k != NONE) { int j; for (j = 0; N[i].name[j]; j++) h->de.d_name[j] = N[i].name[j]; h->de.d_name[j] = 0; return &h->de; }
  }
  return NULL;
}
int vh_closedir(DIR *d) { CHECK(ndh > 0 && (struct dh *) d == &dh[ndh-1], "directories are closed in turn"); ndh--; return 0; }
static char *pathof(int i)
{
  char *s = malloc(64); int st[8], k = 0, n = 0, j;
  for (; i != ROOT; i = N[i].parent) st[k++] = i;
  while (k--) { if (n) s[n++] = '/'; for (j = 0; N[st[k]].name[j]; j++) s[n++] = N[st[k]].name[j]; }
  s[n] = 0; return s;
}
/* ---- expected results ---- */
static char *exp_[MAXN]; static int nexp, seen[MAXN];
static void want(char *p) { exp_[nexp] = p; seen[nexp++] = 0; }
static void got(const char *p)
{
  int i, j;
  for (i = 0; i < nexp; i++) {
    for (j = 0; p[j] && exp_[i][j] == p[j]; j++) ;
    if (!p[j] && !exp_[i][j] && !seen[i]) { seen[i] = 1; return; }
  }
  CHECK(0, "nothing is taken for a message or folder that was not asked for");
}
static char nm(void) { char c = sym_u8(); ASSUME(vand(vand(c != 0, c != '/'), c != '.')); return c; }
/* mairix looks a mailbox up by name */
static int maps, b;
void create_ro_mapping(const char *fn, unsigned char **data, int *len, enum ro_map_compressed_behaviour cb) { maps++; *data = NULL; *len = 0; }

#ifndef NF
#define NF 1
#endif
#ifndef MARKS
#define MARKS 0
#endif
#ifndef DEEP
#define DEEP 0
#endif
#ifndef PK
#define PK 0
#endif
#ifndef OKN
#define OKN 4
#endif
#if defined(LISTS)
/* the list is split at colons that have no backslash before them */
void harness(void)
{
  char *s; int i, n = CHOOSE(0, L), k = 0, m = 0, ni = 0, abs; char item[8][16];
  struct msgpath_array *arr = new_msgpath_array();
  s = sym_str(n);
  for (i = 0; i < n; i++) ASSUME(vand(vand(s[i] != '*', s[i] != '?'), vand(s[i] != '[', s[i] != '.')));
  record = 1;
  /* reference */
  for (i = 0; i <= n; i++) {
    if (i < n && s[i] == '\\' && s[i+1] == ':') { item[ni][m++] = ':'; i++; continue; }
    if (i == n || s[i] == ':') { item[ni][m] = 0; if (i < n || m || !ni || 0) ni++; m = 0; continue; }
    item[ni][m++] = s[i];
  }
  build_message_list("b", s, CHOOSE(0, 1) ? FT_MAILDIR : FT_MH, arr, NULL);
  CHECK(nasked == ni, "there are as many folders as the list has entries");
  for (i = 0; i < ni; i++) {
    abs = item[i][0] == '/';
    if (!abs) { CHECK(asked[i][0] == 'b' && asked[i][1] == '/', "relative folders are below the base"); }
    for (k = 0; ; k++) { CHECK(asked[i][k + (abs ? 0 : 2)] == item[i][k], "each entry is the text between the colons"); if (!item[i][k]) break; }
  }
  COVER_IF(ni > 1, "several folders");
  COVER_IF(arr->n == 0, "none");
}
#elif defined(FLAGS)
/* a Maildir message's flags are the letters after :2, in its file name */
void harness(void)
{
  struct database *db = new_database(7);
  struct msgpath mp; int n = CHOOSE(0, L), i, j, s = 0, r = 0, f = 0, pre = CHOOSE(0, 2); char *p = malloc(n + 12);
  static const char *pres[] = { "b/cur/1", "b/new/2:2,S", "b/cur/3:1" };
  strcpy(p, pres[pre]); j = strlen(p);
  for (i = 0; i < n; i++) { p[j+i] = nm(); }
  p[j+n] = 0;
  memset(&mp, 0x55, sizeof mp); mp.type = MTY_FILE; mp.source_ft = FT_MAILDIR; mp.src.mpf.path = p;
  b = mk(ROOT, "b", DIRK); i = mk(b, pre == 1 ? "new" : "cur", DIRK); mk(i, p + 6, REG);
  for (i = 0; p[i]; i++) {
    if (p[i] != ':') continue;
    s = r = f = 0;
    if (p[i+1] == '2' && p[i+2] == ',') for (j = i + 3; p[j]; j++) { s = vor(s, p[j] == 'S'); r = vor(r, p[j] == 'R'); f = vor(f, p[j] == 'F'); }
  }
  update_database(db, &mp, 1, 0, NULL);
  CHECK(db->n_msgs == 1, "the message is indexed");
  CHECK(db->msgs[0].seen == s && db->msgs[0].replied == r && db->msgs[0].flagged == f, "flags are the letters after :2, in the file name");
  COVER_IF(s && !r && f, "flags");
}
#else
#ifdef MBOX
static int follow;
#define FOLDER(k) ((k) == 1 || ((k) == 4 && follow))
#define ISDIR(k) ((k) == 3)
#define KIND(k) ((k) == 0 ? NONE : (k) == 1 ? REG : (k) == 2 ? FIFO : (k) == 3 ? DIRK : LINK)
#else
#define FOLDER(k) ((k) == 4)
#define ISDIR(k) ((k) >= 3)
#define KIND(k) ((k) == 0 ? NONE : (k) == 1 ? REG : (k) == 2 ? FIFO : DIRK)
#endif
static int a1, a2, a3, under_new;
static char c1, c2, c3;
/* pattern kinds for one component */
static int pk; static char pc;
static int pat(char c)
{
  switch (pk) {
    case 0: return c == pc;
    case 1: case 2: return 1;
    default: return vor(c == 'a', c == pc);
  }
}
static int ok, ocase; static char oc;
/* is the path with these components (0 = no second) below the base left out? */
static int omitted(char x, char y)
{
  switch (ok) {
    case 0: return 0;
    case 1: return y == 0 && x == oc;
    case 2: return y == 0;
    case 3: return y != 0 && x == oc;
    default: return 1;
  }
}
static void make_folder(int node, int k)
{
#if defined(MAILDIR)
  char f[3] = { 0 };
  if (k >= 3) {
    int d1 = mk(node, "new", DIRK), d2 = mk(node, "cur", DIRK), e;
    f[0] = nm(); f[1] = 'f';
    if (k == 4) mk(node, "tmp", DIRK);
    if (k == 5) mk(node, "tmp", REG);
    e = mk(d1, f, REG); if (k == 4 && N[e].k) ;
    mk(d2, "x", REG);
  }
#elif defined(MH)
  static const char *marks[] = { ".mh_sequences", ".xmhcache", ".sylpheed_cache", ".sylpheed_mark", ".claws_cache", ".claws_mark", ".marks", ".overview", "cmeta", "summary", ".mew-summary", "index" };
  if (k >= 3) {
    char f[8] = { 0 }; int n = CHOOSE(1, NF), i;
    if (node != a1) { mk(node, "3", REG); mk(node, "x", REG); }
    else {
    for (i = 0; i < n; i++) { f[i] = sym_u8(); ASSUME(vand(f[i] != 0, f[i] != '/')); }
    if (n == 2) ASSUME(!vand(f[0] == '.', f[1] == '.'));
    if (n == 1) { ASSUME(f[0] != '.'); ASSUME(f[0] != c2); }
    mk(node, f, REG); }
    mk(node, "17.", REG);
    if (k == 4) mk(node, marks[node == a1 ? CHOOSE(0, MARKS) : 2], REG);
    if (k == 5) mk(node, marks[0], DIRK);
  }
#endif
}
/* the messages of a folder */
static void want_folder(int node)
{
  int i, j;
#if defined(MBOX)
  want(pathof(node));
#elif defined(MAILDIR)
  for (i = 0; i < nn; i++)
    if (N[i].parent == node && N[i].k == DIRK && (!strcmp(N[i].name, "new") || !strcmp(N[i].name, "cur")))
      for (j = 0; j < nn; j++) if (N[j].parent == i && N[j].k != NONE) want(pathof(j));
#else
  for (i = 0; i < nn; i++)
    if (N[i].parent == node && N[i].k != NONE) {
      int d = 1, last = 0;
      for (j = 0; N[i].name[j]; j++) {
        last = N[i].name[j] == '.' && !N[i].name[j+1] && j > 0;
        if (!last) d = vand(d, vand(N[i].name[j] >= '0', N[i].name[j] <= '9'));
      }
      if (d) want(pathof(i));
    }
#endif
}
void harness(void)
{
  struct globber_array *og = NULL;
  char spec[32], o[8]; int k1, k2, k3, deep = CHOOSE(DEEP, 1), abs, n = 0, i;
  char one[2] = { 0 };
  b = mk(ROOT, "b", DIRK);
  c1 = nm(); c2 = nm(); c3 = nm();
#if defined(MH)
  /* whether sub-folders whose names look like messages are entered is left open */
  ASSUME(!vand(c2 >= '0', c2 <= '9')); ASSUME(!vand(c1 >= '0', c1 <= '9')); ASSUME(!vand(c3 >= '0', c3 <= '9'));
#endif
  ASSUME(c3 != c1);
  pk = CHOOSE(PK, 3); ok = CHOOSE(0, OKN);
  abs = pk == 2 || ok == 0 ? CHOOSE(0, 1) : 0;
  pc = pk == 0 || pk >= 3 ? nm() : 'q'; oc = ok == 1 || ok == 3 ? nm() : 'q';
  ASSUME(vand(vand(pc != '*', pc != '?'), vand(pc != '[', vand(pc != '\\', vand(pc != ':', vand(pc != ']', vand(pc != '-', pc != '^')))))));
  ASSUME(vand(vand(oc != '*', oc != '?'), vand(oc != '[', vand(oc != '\\', oc != ':'))));
  /* 0 absent, 1 file, 2 fifo, 3 plain directory (with folder-like contents), 4 folder, 5 directory that only looks like one */
  k1 = CHOOSE(0, 5); k2 = ISDIR(k1) ? CHOOSE(0, 4) : 0; k3 = k1 == 4 && k2 == 0 ? 1 : 4;
#ifdef MBOX
  if (k1 == 5) ASSUME(0);
  follow = CHOOSE(0, 1);
#endif
  under_new = 0;
  one[0] = c1; a1 = mk(b, one, KIND(k1)); make_folder(a1, k1);
#if defined(MAILDIR)
  if (k1 == 4) under_new = CHOOSE(0, 1);
  one[0] = c2; a2 = mk(under_new ? child(a1, "new", 3) : a1, one, KIND(k2)); make_folder(a2, k2);
#else
  one[0] = c2; a2 = mk(a1, one, KIND(k2)); make_folder(a2, k2);
#endif
  one[0] = c3; a3 = mk(b, one, KIND(k3)); make_folder(a3, k3);
  /* the specification */
  if (abs) { spec[n++] = '/'; spec[n++] = 'b'; spec[n++] = '/'; }
  switch (pk) {
    case 0: spec[n++] = pc; break;
    case 1: spec[n++] = '?'; break;
    case 2: spec[n++] = '*'; break;
    default: spec[n++] = '['; spec[n++] = 'a'; spec[n++] = pc; spec[n++] = ']'; break;
  }
  if (deep) { spec[n++] = '.'; spec[n++] = '.'; spec[n++] = '.'; }
  spec[n] = 0;
  /* what to leave out; names are relative to the base except for absolute folders */
  n = 0;
  if (ok) {
    if (abs) { o[n++] = '/'; o[n++] = 'b'; o[n++] = '/'; }
    switch (ok) {
      case 1: o[n++] = oc; break;
      case 2: o[n++] = '*'; break;
      case 3: o[n++] = oc; o[n++] = '/'; o[n++] = '*'; break;
      default: o[n++] = '*'; o[n++] = '*'; break;
    }
    o[n] = 0;
    og = colon_sep_string_to_globber_array(o);
  }
  /* expected; whether folders below one that is left out are looked for is left open */
  if (ISDIR(k1) && deep && (FOLDER(k2) || k2 == 4) && omitted(c1, 0) && !omitted(c1, c2)) ASSUME(0);
  if (k1 && pat(c1) && !omitted(c1, 0)) {
    if (FOLDER(k1)) { want_folder(a1); COVER("found"); }
    if (deep && ISDIR(k1) && FOLDER(k2) && !under_new && !omitted(c1, c2)) { want_folder(a2); COVER("found below"); }
  }
  if (pat(c3) && !omitted(c3, 0) && FOLDER(k3)) want_folder(a3);
#ifdef MBOX
  {
    struct database *db = new_database(7); int changed = 0, m0;
    for (i = 0; i < nn; i++) { N[i].mt = 100 + i; N[i].sz = 1000 + i; }
    build_mbox_lists(db, "b", spec, og, follow);
    CHECK(db->n_mboxen == nexp, "every mailbox asked for is listed");
    for (i = 0; i < nexp; i++) { CHECK((db->mboxen[i].path[0] == '/') == abs, "paths are absolute where asked for by absolute path"); got(db->mboxen[i].path + abs); db->mboxen[i].file_mtime = db->mboxen[i].current_mtime; db->mboxen[i].file_size = db->mboxen[i].current_size; }
    CHECK(maps == nexp, "every new mailbox is scanned");
    /* the file changes, or not */
    m0 = CHOOSE(0, 1) ? a1 : CHOOSE(0, 1) ? a2 : a3;
    N[m0].mt = sym_u32(); N[m0].sz = sym_u32();
    changed = vor(N[m0].mt != 100 + m0, N[m0].sz != 1000 + m0);
    for (i = 0; i < nexp; i++) if (!strcmp(exp_[i], pathof(m0))) break;
    maps = 0;
    build_mbox_lists(db, "b", spec, og, follow);
    CHECK(maps == (i < nexp ? changed : 0), "a mailbox is scanned again exactly when its time or size has changed");
    COVER_IF(i < nexp && changed && N[m0].k == LINK, "a linked mailbox changed");
    OBSERVE(db->n_mboxen);
  }
#else
  {
    struct msgpath_array *arr = new_msgpath_array();
#if defined(MAILDIR)
    build_message_list("b", spec, FT_MAILDIR, arr, og);
#else
    build_message_list("b", spec, FT_MH, arr, og);
#endif
    CHECK(arr->n == nexp, "every message of every folder asked for is listed");
    for (i = 0; i < arr->n; i++) {
      CHECK(arr->paths[i].type == MTY_FILE, "each message is a file of its own");
      CHECK((arr->paths[i].src.mpf.path[0] == '/') == abs, "paths are absolute where asked for by absolute path");
      got(arr->paths[i].src.mpf.path + abs);
    }
    OBSERVE(arr->n);
    free_msgpath_array(arr);
  }
#endif
  CHECK(ndh == 0, "all directories are closed again");
}
#endif
