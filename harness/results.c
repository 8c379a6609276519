/* What a search does to the result folder, and to anything else: the real
 * search entry point with a small file system in memory. */
#define VH_NAMES
#define VH_STDIO
#define VH_FILES
#define VH_STDOUT
#include "vh.h"
#include "vhsys.h"
#undef open
#undef close
#undef fstat
#undef read
#undef write
#undef mmap
#undef munmap
#undef printf
#undef puts
#undef putchar
#undef stat
#undef lstat
#undef unlink
#undef link
#undef symlink
#undef mkdir
#undef rename
#undef rmdir
#undef remove
#undef access
#undef opendir
#undef readdir
#undef closedir
#undef fopen
#undef fclose
#undef fwrite
#undef fputs
#undef fputc
#undef putc
#undef fprintf
#undef fgets
#include <stdarg.h>
#include "mairix.h"
#include "imapinterface.h"
#include "dbimg.h"
extern int do_hardlinks;
/* ---- the index ---- */
int vh_open(const char *path, int flags, ...) { CHECK(!(flags & (O_WRONLY | O_RDWR | O_CREAT | O_TRUNC)), "a search does not write the index"); return 7; }
int vh_close(int fd) { return 0; }
int vh_fstat(int fd, struct stat *sb) { memset(sb, 0, sizeof *sb); sb->st_size = im_n; sb->st_mode = S_IFREG; return 0; }
void *vh_mmap(void *a, size_t len, int prot, int flags, int fd, off_t off) { unsigned char *m = malloc(im_n); memcpy(m, im_d, im_n); return m; }
int vh_munmap(void *a, size_t len) { free(a); return 0; }
static char out[128]; static int outn;
int vh_printf(const char *fmt, ...) { va_list ap; int n; va_start(ap, fmt); n = vsnprintf(out + outn, 128 - outn, fmt, ap); va_end(ap); outn += n; return n; }
int vh_puts(const char *s) { return 0; }
int vh_putchar(int c) { return 0; }
/* ---- the file system ---- */
enum kind { NONE, REG, DIRK, LINK };
#define MAXN 32
static struct node { int parent; char name[64]; enum kind k; int ours, src, was; char text[400]; int n; } N[MAXN];
static int nn;
#define ROOT (-2)
static int MF = -1;
static int mk(int parent, const char *name, enum kind k)
{ int i; CHECK(nn < MAXN, "harness: tree too small"); for (i = 0; name[i]; i++) N[nn].name[i] = name[i]; N[nn].name[i] = 0; N[nn].parent = parent; N[nn].k = k; return nn++; }
static int child(int d, const char *p, int n)
{
  int i, j;
  for (i = 0; i < nn; i++) {
    if (N[i].parent != d || N[i].k == NONE) continue;
    for (j = 0; j < n; j++) if (N[i].name[j] != p[j]) break;
    if (j == n && !N[i].name[n]) return i;
  }
  return -1;
}
/* the node, or -1; *dir and *last get the parent and the last component */
static int walk(const char *p, int *dir, const char **last)
{
  int at = ROOT, n;
  if (!*p) return -1;
  while (*p) {
    if (*p == '/') { p++; continue; }
    for (n = 0; p[n] && p[n] != '/'; n++) ;
    if (at == -1 || (at != ROOT && N[at].k != DIRK)) { if (dir) *dir = -1; return -1; }
    if (dir) *dir = at; if (last) *last = p;
    at = child(at, p, n);
    p += n;
  }
  return at;
}
static int node_of(const char *p, int follow)
{ int i = walk(p, NULL, NULL); if (i >= 0 && follow && N[i].k == LINK) i = walk(N[i].text, NULL, NULL); return i; }
static int inside(int i) { for (; i >= 0; i = N[i].parent) if (i == MF) return 1; return 0; }
/* a path that may come to be in the result folder */
static int inside_path(const char *p) { int d = -1; int i = walk(p, &d, NULL); return (i >= 0 && (inside(i) || i == MF)) || (d >= 0 && inside(d)) || !strcmp(p, "mf"); }
static int st(const char *p, struct stat *sb, int follow)
{
  int i = node_of(p, follow);
  memset(sb, 0, sizeof *sb);
  if (i == -1) { errno = ENOENT; return -1; }
  sb->st_mode = i == ROOT || N[i].k == DIRK ? S_IFDIR : N[i].k == REG ? S_IFREG : S_IFLNK;
  sb->st_ino = i + 10; sb->st_nlink = 1;
  return 0;
}
int vh_stat(const char *p, struct stat *sb) { return st(p, sb, 1); }
int vh_lstat(const char *p, struct stat *sb) { return st(p, sb, 0); }
int vh_access(const char *p, int m) { struct stat sb; return st(p, &sb, 1); }
int vh_unlink(const char *p)
{
  int i = walk(p, NULL, NULL);
  if (i < 0) { errno = ENOENT; return -1; }
  CHECK(inside(i) || i == MF, "nothing outside the result folder is removed");
  if (N[i].k == DIRK) { errno = EISDIR; return -1; }
  if (i == MF) MF = -1;
  N[i].k = NONE; return 0;
}
int vh_remove(const char *p) { return vh_unlink(p); }
int vh_rmdir(const char *p) { CHECK(0, "no directory is removed"); return -1; }
int vh_rename(const char *a, const char *b) { CHECK(0, "nothing is renamed"); return -1; }
static int create(const char *p, enum kind k)
{
  int d = -1, i; const char *last = NULL;
  i = walk(p, &d, &last);
  if (i != -1) { errno = EEXIST; return -1; }
  if (d == -1) { errno = ENOENT; return -1; }
  CHECK(inside_path(p), "nothing is created outside the result folder");
  i = mk(d, last, k); N[i].ours = 1;
  if (d == ROOT && !strcmp(last, "mf")) MF = i;
  return i;
}
int vh_mkdir(const char *p, mode_t m) { return create(p, DIRK) < 0 ? -1 : 0; }
int vh_symlink(const char *a, const char *b)
{ int i = create(b, LINK); if (i < 0) return -1; CHECK(strlen(a) < 90, "harness: target too long"); strcpy(N[i].text, a); return 0; }
int vh_link(const char *a, const char *b)
{ int s = walk(a, NULL, NULL), i; if (s < 0) { errno = ENOENT; return -1; } i = create(b, REG); if (i < 0) return -1; N[i].src = s + 1; return 0; }
static struct dh { int node, pos, open; struct dirent de; } dh[3];
DIR *vh_opendir(const char *p)
{
  int i = node_of(p, 1), k;
  if (i == -1 || (i != ROOT && N[i].k != DIRK)) { errno = ENOENT; return NULL; }
  for (k = 0; k < 3 && dh[k].open; k++) ;
  CHECK(k < 3, "directories are closed after use");
  dh[k].node = i; dh[k].pos = -2; dh[k].open = 1;
  return (DIR *) &dh[k];
}
struct dirent *vh_readdir(DIR *d)
{
  struct dh *h = (struct dh *) d;
  if (h->pos == -2) { h->pos++; strcpy(h->de.d_name, ".."); return &h->de; }
  if (h->pos == -1) { h->pos++; strcpy(h->de.d_name, "."); return &h->de; }
  while (h->pos < nn) {
    int i = h->pos++;
    if (N[i].parent == h->node && N[i].k != NONE) { int j; for (j = 0; N[i].name[j]; j++) h->de.d_name[j] = N[i].name[j]; h->de.d_name[j] = 0; return &h->de; }
  }
  return NULL;
}
int vh_closedir(DIR *d) { ((struct dh *) d)->open = 0; return 0; }
/* files written by name */
static struct fh { int node, open; } fh[3];
FILE *vh_fopen(const char *p, const char *mode)
{
  int i, k, excl = 0; const char *q;
  for (q = mode; *q; q++) if (*q == 'x') excl = 1;
  CHECK(mode[0] == 'w' || mode[0] == 'a', "results are only written");
  i = walk(p, NULL, NULL);
  if (i >= 0 && excl) { errno = EEXIST; return NULL; }
  if (i >= 0 && N[i].k == LINK) { i = walk(N[i].text, NULL, NULL); CHECK(i < 0 || inside(i) || i == MF, "nothing outside the result folder is written, not even through a link"); }
  if (i == -1) i = create(p, REG);
  if (i < 0) return NULL;
  if (N[i].k == DIRK) { errno = EISDIR; return NULL; }
  CHECK(inside(i) || i == MF, "nothing outside the result folder is written");
  CHECK(!N[i].src, "nothing outside the result folder is written, not even through a hard link");
  CHECK(N[i].ours || mode[0] == 'a', "results already there are kept");
  if (mode[0] == 'w') N[i].n = 0;
  for (k = 0; k < 3 && fh[k].open; k++) ;
  CHECK(k < 3, "files are closed after use");
  fh[k].open = 1; fh[k].node = i; return (FILE *) &fh[k];
}
static int nopen(void) { return fh[0].open + fh[1].open + fh[2].open; }
int vh_fclose(FILE *f) { ((struct fh *) f)->open = 0; return 0; }
static void put(FILE *f, const char *p, int n)
{ int i; struct node *x; if (f == stderr || f == stdout) return; CHECK(((struct fh *) f)->open, "only open files are written"); x = &N[((struct fh *) f)->node]; CHECK(x->n + n <= 400, "no more is written than the message"); for (i = 0; i < n; i++) x->text[x->n++] = p[i]; }
static int told; /* something was said on standard error */
size_t vh_fwrite(const void *p, size_t sz, size_t n, FILE *f) { put(f, p, sz * n); return n; }
int vh_fputs(const char *s, FILE *f) { put(f, s, strlen(s)); return 0; }
int vh_fputc(int c, FILE *f) { char b = c; put(f, &b, 1); return c; }
int vh_fprintf(FILE *f, const char *fmt, ...)
{ char b[512]; va_list ap; int n; va_start(ap, fmt); n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); if (f == stderr) { told = 1; return n; } put(f, b, n); return n; }
char *vh_fgets(char *s, int n, FILE *f) { CHECK(0, "nothing is read"); return NULL; }
/* ---- messages ---- */
#define NM 3
static enum { FILEM, MBOXM, IMAPM } kind[NM];
static const char *path[NM] = { "s/cur/a", "s/new/b", "t/new" };
static int flags[NM], hit[NM];
static char box[24]; static int boxlen, start[NM], mlen[NM];
static char imapmsg[3], filemsg[2][4]; static int filelen[2];
static int maps;
void create_ro_mapping(const char *fn, unsigned char **data, int *len, enum ro_map_compressed_behaviour cb)
{
  int i;
  *data = NULL; *len = 0;
  if (!strcmp(fn, "box")) { if (boxlen) { *data = malloc(boxlen); memcpy(*data, box, boxlen); *len = boxlen; maps++; } else told = 1; return; }
  for (i = 0; i < NM; i++) if (!strcmp(fn, path[i])) { int k = i ? 1 : 0; if (filelen[k]) { *data = malloc(filelen[k]); memcpy(*data, filemsg[k], filelen[k]); *len = filelen[k]; maps++; } return; }
  CHECK(0, "only messages and mailboxes are read");
}
void free_ro_mapping(unsigned char *d, int len) { CHECK(maps > 0, "released once"); maps--; free(d); }
void unmap_ro_mapping(void) { }
/* equal checksums, equal text (up to 14 bytes) */
#include "md5.h"
static char sumtext[64]; static int sumn;
void MD5Init(MD5_CTX *c) { sumn = 0; }
void MD5Update(MD5_CTX *c, unsigned const char *p, unsigned int n) { unsigned i; CHECK(sumn + n < 15, "harness: text too long"); for (i = 0; i < n; i++) sumtext[sumn++] = p[i]; }
void MD5Final(MD5_CTX *c) { int i; memset(c->digest, 0, 16); c->digest[0] = sumn + 1; for (i = 0; i < sumn; i++) c->digest[1 + i] = sumtext[i]; }
static char conn;
struct imap_ll *imap_start(const char *a, const char *b, const char *c, const char *d) { return a || b ? (struct imap_ll *) &conn : NULL; }
int imap_fetch_message_raw(const char *p, struct imap_ll *c, void (*cb)(const char *, size_t, void *), void *arg) { CHECK(c == (struct imap_ll *) &conn, "connected"); cb(imapmsg, 3, arg); return 1; }
static char sent[96]; static int sentn, cleared, ncopied, nsent; static int copied[4], sentfl[4];
void imap_clear_folder(struct imap_ll *c, const char *f) { CHECK(c == (struct imap_ll *) &conn && !strcmp(f, "mf"), "only the result folder is cleared"); CHECK(!nsent && !ncopied, "before results are put in"); cleared++; }
void imap_append_new_message(struct imap_ll *c, const char *folder, const unsigned char *data, size_t len, int seen, int answered, int flagged)
{ size_t i; CHECK(c == (struct imap_ll *) &conn && !strcmp(folder, "mf"), "results go to the result folder"); CHECK(data != NULL && len < 20, "a message is sent"); sentfl[nsent] = (seen ? FLAG_SEEN : 0) | (answered ? FLAG_REPLIED : 0) | (flagged ? FLAG_FLAGGED : 0); nsent++; for (i = 0; i < len; i++) sent[sentn++] = data[i]; sent[sentn++] = '|'; }
void imap_copy_message(struct imap_ll *c, const char *p, const char *to) { CHECK(c == (struct imap_ll *) &conn && !strcmp(to, "mf"), "results go to the result folder"); CHECK(!strcmp(p, path[1]), "the message found is copied"); ncopied++; }
static char parsed[96]; static int parsedn;
struct rfc822 *make_rfc822(char *fn) { int i; for (i = 0; i < NM; i++) if (!strcmp(fn, path[i])) { parsed[parsedn++] = 'f'; parsed[parsedn++] = '0' + i; return NULL; } CHECK(0, "only messages found are read"); return NULL; }
struct rfc822 *make_rfc822_from_imap(const char *fn, struct imap_ll *c) { CHECK(!strcmp(fn, path[1]), "only messages found are read"); parsed[parsedn++] = 'i'; return NULL; }
struct rfc822 *data_to_rfc822(struct msg_src *src, char *data, int len, enum data_to_rfc822_error *error) { int i; CHECK(len < 20, "only the message is read"); for (i = 0; i < len; i++) parsed[parsedn++] = data[i]; parsed[parsedn++] = '|'; return NULL; }
void free_rfc822(struct rfc822 *r) { }
static char obox[24];
void mk_index(void)
{
  int i; unsigned o; char cd[8];
  im_new(2048);
  im_msgs(NM);
  for (i = 0; i < NM; i++) {
    IM_TYPE(i) = (kind[i] == FILEM ? DB_MSG_FILE : kind[i] == MBOXM ? DB_MSG_MBOX : DB_MSG_IMAP) | flags[i];
    IM_MSG(UI_MSG_TID, i) = i; IM_MSG(UI_MSG_DATE, i) = 1000 - i; IM_MSG(UI_MSG_SIZE, i) = 50;
    if (kind[i] == MBOXM) { IM_MSG(UI_MSG_MTIME, i) = start[i]; IM_MSG(UI_MSG_SIZE, i) = mlen[i]; memset(cd, 0, 8); encode_mbox_indices(cd, 0, i); IM_MSG(UI_MSG_CDATA, i) = im_bytes(cd, 8); }
    else IM_MSG(UI_MSG_CDATA, i) = im_str(path[i]);
  }
  im_mboxen(1);
  *im_ui(*im_ui(UI_MBOX_PATHS)) = im_str("box");
  *im_ui(*im_ui(UI_MBOX_ENTRIES)) = NM;
  o = im_n; *im_ui(*im_ui(UI_MBOX_CKSUM)) = o; 
  for (i = 0; i < NM; i++) { checksum_t c; memset(c, 0, 16); if (kind[i] == MBOXM) compute_checksum(obox + start[i], mlen[i], &c); im_bytes(c, 16); }
  im_align();
  im_empty_toks();
  im_toks(UI_SUBJECT_BASE, 1, 0);
  IM_TOK(UI_SUBJECT_BASE, 0) = im_str("w");
  IM_ENC(UI_SUBJECT_BASE, 0) = im_posting(hit, NM);
}
static void tree(void) { int s = mk(ROOT, "s", DIRK), c = mk(s, "cur", DIRK), n = mk(s, "new", DIRK), t = mk(ROOT, "t", DIRK); mk(c, "a", REG); mk(n, "b", REG); mk(t, "new", REG); mk(ROOT, "box", REG); }
static char *fold(void) { char *f = malloc(3); strcpy(f, "mf"); return f; }
static int eq(int i, const char *s, int n) { int j; if (N[i].n != n) return 0; for (j = 0; j < n; j++) if (N[i].text[j] != s[j]) return 0; return 1; }
/* the text expected for message m copied into a file of its own */
static char want[64]; static int wantn;
static void w_(const char *s, int n) { while (n--) want[wantn++] = *s++; }
static int is_copy(int i, int m)
{
  int n = mlen[m];
  wantn = 0;
  if (kind[m] == IMAPM) w_(imapmsg, 3);
  else { w_("X-source-folder: box\n", 21); w_(box + start[m], n); }
  if (eq(i, want, wantn)) return 1;
  /* the empty line that ends a message in a mailbox is not part of it */
  return kind[m] == MBOXM && n && box[start[m] + n - 1] == '\n' && eq(i, want, wantn - 1);
}
static int result_of(int i)
{
  int m;
  if (!N[i].ours || N[i].k == NONE || N[i].k == DIRK) return -1;
  for (m = 0; m < NM; m++) {
    if (!hit[m]) continue;
    if (kind[m] == FILEM ? (N[i].k == LINK && !do_hardlinks && !strcmp(N[i].text, path[m])) || (N[i].k == REG && do_hardlinks && N[i].src && N[i].src - 1 == walk(path[m], NULL, NULL)) : N[i].k == REG && !N[i].src && is_copy(i, m)) return m;
  }
  CHECK(0, "the result folder gets the messages found, whole, and nothing else");
  return -1;
}
static int cur_, new_, tmp_;
static int number(const char *s) { int v = 0; CHECK(*s, "results are numbered"); while (*s) { CHECK(*s >= '0' && *s <= '9' && v < 100000000, "results are numbered"); v = 10 * v + *s++ - '0'; } return v; }
#if defined(RES)
static int numeric(const char *s) { return !strcmp(s, "1") || !strcmp(s, "2") || !strcmp(s, "9") || !strcmp(s, "1."); }
static int exists[3], nold, new0;
void harness(void)
{
  static const char *names[] = { "1", "2", "123456789.0.mairix", "123456789.1.mairix", "x", "1.", "9" };
  char *argv[] = { "w", NULL }; int i, m, f1, aug, ft, r, nh = 0, seen[NM] = {0}, num[NM] = {0};
  ft = RES ? FT_MH : FT_MAILDIR; aug = CHOOSE(0, 1); do_hardlinks = CHOOSE(0, 1);
  tree();
#ifdef ANYDIR
  { /* a folder of any name in place of s/cur */
    static char p0[20]; int top = CHOOSE(0, 1), n, k = CHOOSE(1, ANYDIR), d;
    strcpy(p0, top ? "new/" : "q/"); n = strlen(p0);
    for (i = 0; i < k; i++) { p0[n + i] = sym_u8(); ASSUME(vand(p0[n + i] != 0, vand(p0[n + i] != '/', p0[n + i] != '.'))); }
    strcpy(p0 + n + k, "/a"); path[0] = p0;
    d = mk(mk(ROOT, top ? "new" : "q", DIRK), "?", DIRK); memcpy(N[d].name, p0 + n, k); N[d].name[k] = 0; mk(d, "a", REG);
    new0 = 0; if (k == 3) if (p0[n] == 'n') if (p0[n + 1] == 'e') if (p0[n + 2] == 'w') { new0 = 1; COVER("called new"); }
  }
#endif
  for (i = 0; i < NM; i++) {
#ifdef ANYDIR
    if (i) continue;
#endif
    hit[i] = CHOOSE(0, 1); nh += hit[i];
    kind[i] = hit[i] ? CHOOSE(0, i == 1 ? 2 : 1) : FILEM;
  }
  f1 = ft == FT_MAILDIR ? CHOOSE(0, NM - 1) : 0; if (!hit[f1] && f1) return;
  for (i = 0; i < NM; i++) { flags[i] = 0; if (hit[i] && ft == FT_MAILDIR && i == f1) { flags[i] = sym_u8(); ASSUME(!(flags[i] & ~(FLAG_SEEN | FLAG_REPLIED | FLAG_FLAGGED))); } }
  boxlen = 8; for (i = 0; i < 8; i++) box[i] = 'a' + i;
  box[1] = sym_u8(); box[3] = sym_u8();
  for (i = 0; i < NM; i++) { start[i] = 2 * i; mlen[i] = 2; }
  for (i = 0; i < 3; i++) imapmsg[i] = 'I';
  /* what is there before */
  switch (CHOOSE(0, 2)) {
    case 0: break;
    case 1: MF = mk(ROOT, "mf", REG); COVER("a file in the way"); break;
    default:
      MF = mk(ROOT, "mf", DIRK);
      if (ft == FT_MAILDIR) { cur_ = mk(MF, "cur", DIRK); new_ = mk(MF, "new", DIRK); tmp_ = mk(MF, "tmp", DIRK); }
      nold = CHOOSE(0, OLD);
      for (i = 0; i < nold; i++) {
        int d = ft == FT_MH ? MF : CHOOSE(0, 1) ? cur_ : CHOOSE(0, 1) ? new_ : tmp_, k = CHOOSE(0, 2);
        const char *nmx = names[CHOOSE(0, 6)];
        if (child(d, nmx, strlen(nmx)) != -1) return;
        m = mk(d, nmx, k == 0 ? LINK : k == 1 ? REG : DIRK); N[m].was = 1;
        if (k == 0) strcpy(N[m].text, path[0]);
        if (k == 1) { strcpy(N[m].text, "old"); N[m].n = 3; }
      }
  }
  memcpy(obox, box, 24);
  mk_index();
  r = search_top(0, aug, "db", fold(), argv, ft, 0, "p", NULL, NULL, NULL, 0);
  CHECK(r == (nh == 0), "the exit status says whether anything matched");
  CHECK(nopen() == 0 && !dh[0].open, "everything is closed");
  for (i = 0; i < nn; i++) if (N[i].was) {
    int in_tmp = ft == FT_MAILDIR && N[i].parent == tmp_;
    int msg = ft == FT_MAILDIR ? !in_tmp : numeric(N[i].name);
    if (N[i].k != NONE) { if (N[i].k == REG) CHECK(eq(i, "old", 3), "results already there are kept as they are"); CHECK(aug || N[i].k == DIRK || !msg, "earlier results are removed"); }
    else { CHECK(!aug, "with -a earlier results are kept"); CHECK(msg, "only messages are removed"); COVER("earlier results removed"); }
    if (aug) COVER("earlier results kept");
  }
  for (i = 0; i < nn; i++) {
    int fl; const char *p;
    m = result_of(i); if (m < 0) continue;
    CHECK(!seen[m], "each message found is there once"); seen[m] = 1;
    if (ft == FT_MH) { CHECK(N[i].parent == MF, "in the folder"); num[m] = number(N[i].name); continue; }
    CHECK(N[i].parent >= 0 && N[N[i].parent].parent == MF, "in the folder");
    fl = flags[m];
    /* unread messages are new */
    p = N[N[i].parent].name;
    if (kind[m] == FILEM) CHECK(strcmp(p, m == 1 || (m == 0 && new0) ? "new" : "cur") == 0, "a link is in new exactly when the message is");
    else if (kind[m] == MBOXM) CHECK(strcmp(p, (fl & FLAG_SEEN) ? "cur" : "new") == 0, "unread messages are new");
    else CHECK(strcmp(p, "new") == 0 || strcmp(p, "cur") == 0, "messages are in new or cur");
    for (p = N[i].name; *p && *p != ':'; p++) ;
    { int f = 0, s = 0, rr = 0; if (*p) { CHECK(p[1] == '2' && p[2] == ',', "flags follow :2,"); for (p += 3; *p; p++) { if (*p == 'F') f++; else if (*p == 'S') s++; else if (*p == 'R') rr++; else CHECK(0, "only known flags"); } }
      CHECK(f == !!(fl & FLAG_FLAGGED) && s == !!(fl & FLAG_SEEN) && rr == !!(fl & FLAG_REPLIED), "a result has the flags of the message"); }
    COVER_IF(kind[m] == MBOXM, "copied"); COVER_IF(kind[m] == IMAPM, "fetched"); COVER_IF(do_hardlinks && kind[m] == FILEM, "hard link");
  }
  /* with -a and a Maildir, an entry of the same name may stand for the message already */
  for (m = 0; m < NM; m++) if (hit[m] && !seen[m]) {
    int there = 0;
    for (i = 0; i < nn; i++) if (N[i].was && N[i].k != NONE && N[i].name[0] == '1' && N[i].name[1] == '2') there = 1;
    CHECK(ft == FT_MAILDIR && there && (aug || there), "every message found is in the result folder");
  }
  if (ft == FT_MH) for (i = 0; i < NM; i++) for (m = 0; m < i; m++) if (seen[i] && seen[m]) CHECK(num[m] < num[i], "results are numbered in order");
  CHECK(MF >= 0 && N[MF].k == DIRK, "the result folder is there");
  if (ft == FT_MAILDIR) CHECK(child(MF, "cur", 3) >= 0 && child(MF, "new", 3) >= 0 && child(MF, "tmp", 3) >= 0, "the result folder is a Maildir");
  COVER_IF(nh == 3, "three results");
}
#endif
#if defined(DELIVER)
/* one or two messages found, each delivered whole if it still is what was indexed */
static char exp_[128]; static int expn;
static void e_(const char *s, int n) { while (n--) exp_[expn++] = *s++; }
void harness(void)
{
  char *argv[] = { "w", NULL }; int i, j, m, aug, ft, r, nh = 0, old = 0, same[NM] = {0}, good = 0, nfl = 0;
  static const int fts[] = { FT_MBOX, FT_IMAP, FT_EXCERPT, FT_RAW };
  ft = fts[DELIVER]; aug = CHOOSE(0, 1);
  tree();
  for (i = 0; i < NM; i++) {
    kind[i] = i == 0 ? FILEM : CHOOSE(i == 1 ? 0 : 1, i == 1 ? 2 : 1);
    hit[i] = CHOOSE(0, 1); nh += hit[i];
  }
  for (i = 0; i < NM; i++) { flags[i] = 0; if (ft == FT_IMAP && i != 1 && hit[i]) { flags[i] = sym_u8(); ASSUME(!(flags[i] & ~(FLAG_SEEN | FLAG_REPLIED | FLAG_FLAGGED))); } }
  for (i = 0; i < 24; i++) box[i] = obox[i] = 'a' + i % 7;
  mlen[1] = CHOOSE(0, 1) ? 2 : 3; mlen[2] = CHOOSE(0, LEN);
  start[1] = CHOOSE(0, 1); start[2] = start[1] + mlen[1] + CHOOSE(0, 1);
  for (i = 0; i < mlen[2]; i++) { obox[start[2] + i] = sym_u8(); box[start[2] + i] = obox[start[2] + i]; }
  boxlen = start[2] + mlen[2] + CHOOSE(0, 1);
  /* the mailbox may have changed since */
  switch (CHOOSE(0, 3)) {
    case 0: break;
    case 1: if (mlen[2]) { j = CHOOSE(0, mlen[2] - 1); box[start[2] + j] = sym_u8(); } break;
    case 2: boxlen = CHOOSE(0, boxlen - 1); break;
    default: j = CHOOSE(0, mlen[1] - 1); box[start[1] + j] = sym_u8(); break;
  }
  for (m = 1; m < NM; m++) { same[m] = start[m] + mlen[m] <= boxlen; for (i = 0; i < mlen[m]; i++) same[m] = vand(same[m], box[start[m] + i] == obox[start[m] + i]); }
  if (mlen[2] == 0) same[2] = boxlen > 0;
  if (kind[1] == MBOXM) same[1] = CONCRETE(same[1]); if (kind[2] == MBOXM) same[2] = CONCRETE(same[2]);
  if (ft == FT_MBOX) { filelen[0] = CHOOSE(0, 3); for (i = 0; i < filelen[0]; i++) filemsg[0][i] = sym_u8(); } else { filelen[0] = 2; filemsg[0][0] = 'f'; filemsg[0][1] = 'g'; }
  filelen[1] = 1; filemsg[1][0] = 'h';
  for (i = 0; i < 3; i++) imapmsg[i] = 'I';
  if (ft == FT_MBOX && CHOOSE(0, 1)) { MF = mk(ROOT, "mf", REG); strcpy(N[MF].text, "o\n\n"); N[MF].n = 3; old = 1; }
  mk_index();
  r = search_top(0, aug, "db", fold(), argv, ft, 0, "p", NULL, NULL, NULL, 0);
  CHECK(r == (nh == 0), "the exit status says whether anything matched");
  CHECK(nopen() == 0 && maps == 0, "everything is closed");
  if (ft == FT_MBOX) {
    const char *t; int n, p = 0, w; struct node *x;
    CHECK(MF >= 0 && N[MF].k == REG, "the result mailbox is there"); x = &N[MF];
    if (old && aug) { CHECK(x->n >= 3 && x->text[0] == 'o' && x->text[1] == '\n' && x->text[2] == '\n', "with -a earlier results are kept"); p = 3; COVER("appended"); }
    for (m = 0; m < NM; m++) {
      if (!hit[m]) continue;
      if (kind[m] == FILEM) { if (m < 2) { t = filemsg[m]; n = filelen[m]; } else { t = filemsg[1]; n = filelen[1]; } if (!n) continue; }
      else if (kind[m] == IMAPM) { t = imapmsg; n = 3; }
      else { if (!same[m]) { COVER("changed since"); continue; } t = box + start[m]; n = mlen[m]; }
      CHECK(p + 5 < x->n && x->text[p] == 'F' && x->text[p+1] == 'r' && x->text[p+2] == 'o' && x->text[p+3] == 'm' && x->text[p+4] == ' ', "each message found is there, behind a separator line");
      while (p < x->n && x->text[p] != '\n') p++; p++;
      if (p + 16 < x->n && x->text[p] == 'X' && x->text[p+1] == '-' && x->text[p+2] == 's') { while (p < x->n && x->text[p] != '\n') p++; p++; }
      CHECK(p + n <= x->n, "each message found is there whole");
      for (i = 0; i < n; i++) CHECK(x->text[p + i] == t[i], "each message found is there whole, byte by byte");
      p += n;
      /* an empty line ends it */
      for (w = 0; p < x->n && x->text[p] == '\n'; w++) p++;
      CHECK(w <= 2, "nothing is added but the end of the message");
      CHECK(p == x->n || x->text[p] == 'F', "nothing is added but the end of the message");
      { int q = p - 1; CHECK(x->text[q] == '\n' && x->text[q-1] == '\n', "an empty line ends each message"); }
      good++;
    }
    CHECK(p == x->n, "nothing else is in the result mailbox");
  } else if (ft == FT_IMAP) {
    CHECK(cleared == !aug, "earlier results are removed unless -a is given");
    for (m = 0; m < NM; m++) {
      const char *t; int n;
      if (!hit[m] || kind[m] == IMAPM) continue;
      if (kind[m] == FILEM) { t = filemsg[m ? 1 : 0]; n = filelen[m ? 1 : 0]; }
      else { if (!same[m]) { COVER("changed since"); continue; } t = box + start[m]; n = mlen[m]; }
      CHECK(nfl < nsent && sentfl[nfl] == flags[m], "a result has the flags of the message"); nfl++;
      e_(t, n); e_("|", 1); good++;
    }
    CHECK(ncopied == (hit[1] && kind[1] == IMAPM), "messages on the server are copied there");
    CHECK(sentn == expn && nfl == nsent, "each message found that still is what was indexed is sent");
    for (i = 0; i < expn; i++) CHECK(sent[i] == exp_[i], "messages are sent whole");
  } else if (ft == FT_EXCERPT) {
    for (m = 0; m < NM; m++) {
      if (!hit[m]) continue;
      if (kind[m] == FILEM) { e_("f", 1); exp_[expn++] = '0' + m; good++; }
      else if (kind[m] == IMAPM) e_("i", 1);
      else { if (!same[m]) { COVER("changed since"); continue; } e_(box + start[m], mlen[m]); e_("|", 1); good++; }
    }
    CHECK(parsedn == expn, "the messages found are shown, if they still are what was indexed");
    for (i = 0; i < expn; i++) CHECK(parsed[i] == exp_[i], "the messages found are shown");
  } else {
    for (m = 0; m < NM; m++) {
      char b[40]; int n;
      if (!hit[m]) continue;
      if (kind[m] == MBOXM) n = sprintf(b, "mbox:box [%d,%d)\n", start[m], start[m] + mlen[m]); else n = sprintf(b, "%s\n", path[m]);
      e_(b, n); good++;
    }
    CHECK(outn == expn, "the messages found are listed");
    for (i = 0; i < expn; i++) CHECK(out[i] == exp_[i], "the messages found are listed");
  }
  if (ft != FT_RAW) {
    int out = 0;
    for (m = 0; m < NM; m++) if (hit[m] && kind[m] == MBOXM && !same[m]) out = 1;
    CHECK(told == out, "that a message found was left out is said, and nothing else");
  }
  COVER_IF(good >= 2, "several delivered");
}
#endif
