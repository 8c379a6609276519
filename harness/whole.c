/* The whole program, from main() on, over a file system in memory. */
#define VH_NO_GLOBALS
#define VH_NO_EXIT
#define VH_NAMES
#define VH_STDIO
#define VH_PROC
#define VH_MAIN
#define VH_STDOUT
#define VH_FILES
#define VH_TIME
#include "vh.h"
#include "vhsys.h"
#undef open
#undef close
#undef fstat
#undef ftruncate
#undef lseek
#undef read
#undef write
#undef mmap
#undef munmap
#undef fsync
#undef stat
#undef lstat
#undef unlink
#undef link
#undef symlink
#undef mkdir
#undef rename
#undef rmdir
#undef remove
#undef access
#undef opendir
#undef readdir
#undef closedir
#undef fopen
#undef fclose
#undef fwrite
#undef fputs
#undef fputc
#undef putc
#undef fprintf
#undef fgets
#undef tmpfile
#undef fileno
#undef time
#undef localtime
#undef gmtime
#undef mktime
#undef strftime
#undef main
#undef exit
#undef getpid
#undef uname
#undef kill
#undef printf
#undef puts
#undef putchar
#include <stdarg.h>
#include "mairix.h"
#include "imapinterface.h"
/* ---- failing calls ---- */
/* a position, in two bytes: cheaper to decide than a word */
struct pos { unsigned char hi, lo; };
static struct pos any_pos(int max) { struct pos p; p.hi = sym_u8(); p.lo = sym_u8(); ASSUME(p.hi <= max >> 8); return p; }
static int at(struct pos p, unsigned n) { if (p.hi != n >> 8) return 0; return p.lo == (n & 255); }
static struct pos fault; static unsigned calls; static int faulty; static int armed, failed;
static int fails(void) { if (!armed || failed || !faulty) return 0; if (at(fault, calls++)) { failed = 1; errno = EIO; return 1; } return 0; }
/* ---- the file system ---- */
enum kind { NONE, REG, DIRK, LINK };
#ifndef MAXN
#define MAXN 48
#endif
static struct node { int parent; char name[40]; enum kind k; char *d; int n; unsigned mtime; int mail, busy; char *to; } N[MAXN];
static int nn;
#define ROOT (-2)
static int mk(int parent, const char *name, enum kind k)
{ int i, j; for (i = 0; i < nn; i++) if (N[i].k == NONE && !N[i].busy) break; if (i == nn) nn++; CHECK(i < MAXN, "harness: tree too small"); for (j = 0; name[j] && name[j] != '/'; j++) N[i].name[j] = name[j]; CHECK(j < 40, "harness: name too long"); N[i].name[j] = 0; N[i].parent = parent; N[i].k = k; N[i].d = NULL; N[i].n = 0; N[i].mtime = 1; N[i].mail = 0; return i; }
static int child(int d, const char *p, int n)
{
  int i, j;
#ifdef MANY /* the next one after the last is the likely one, and names are unique */
  static int lasts[MAXN + 2]; int *lp = &lasts[d + 2];
#define last (*lp)
  i = last + 1; if (i < nn && N[i].parent == d && N[i].k != NONE) { for (j = 0; j < n; j++) if (N[i].name[j] != p[j]) break; if (j == n && !N[i].name[n]) return last = i; }
  i = last; if (i < nn && N[i].parent == d && N[i].k != NONE) { for (j = 0; j < n; j++) if (N[i].name[j] != p[j]) break; if (j == n && !N[i].name[n]) return i; }
#else
  int last;
#endif
  for (i = 0; i < nn; i++) { if (N[i].parent != d || N[i].k == NONE) continue; for (j = 0; j < n; j++) if (N[i].name[j] != p[j]) break; if (j == n && !N[i].name[n]) return last = i; } return -1; }
#undef last
static int walk(const char *p, int *dir, const char **last)
{
  int at = ROOT, n;
  if (!*p) return -1;
  while (*p) {
    if (*p == '/') { p++; continue; }
    for (n = 0; p[n] && p[n] != '/'; n++) ;
    if (n == 1 && p[0] == '.') { p += n; continue; }
    while (at >= 0 && N[at].k == LINK) at = walk(N[at].to, NULL, NULL);
    if (at == -1 || (at != ROOT && N[at].k != DIRK)) { if (dir) *dir = -1; return -1; }
    if (dir) *dir = at; if (last) *last = p;
    at = child(at, p, n);
    p += n;
  }
  return at;
}
static int node_of(const char *p, int follow) { int i = walk(p, NULL, NULL); while (i >= 0 && follow && N[i].k == LINK) i = walk(N[i].to, NULL, NULL); return i; }
static int below(int i, const char *top) { for (; i >= 0; i = N[i].parent) if (N[i].parent == ROOT && !strcmp(N[i].name, top)) return 1; return 0; }
static int lock_held, lock_tmp, stale;
#define LOCKNAME "/d.lock"
static int is_tmp(const char *p) { return !strncmp(p, "/d.lock.", 8); }
static int stnode(int i, struct stat *sb)
{
  memset(sb, 0, sizeof *sb);
  if (i == -1) { errno = ENOENT; return -1; }
  sb->st_mode = i == ROOT || N[i].k == DIRK ? S_IFDIR | 0700 : N[i].k == REG ? S_IFREG | 0600 : S_IFLNK;
  sb->st_ino = i + 10; sb->st_nlink = 1;
  if (i >= 0) { sb->st_size = N[i].n; sb->st_mtime = N[i].mtime; }
  return 0;
}
int vh_stat(const char *p, struct stat *sb)
{ if (is_tmp(p)) { memset(sb, 0, sizeof *sb); sb->st_nlink = lock_held ? 2 : 1; return 0; } if (fails()) return -1; return stnode(node_of(p, 1), sb); }
int vh_lstat(const char *p, struct stat *sb) { if (fails()) return -1; return stnode(node_of(p, 0), sb); }
int vh_access(const char *p, int m) { struct stat sb; if (fails()) return -1; return stnode(node_of(p, 1), &sb); }
/* each job decides one of these */
#ifdef UNTOUCHED
#define LOCKED(c, m) ((void) (c))
#define SAFE(c, m) CHECK(c, m)
#else
#define LOCKED(c, m) CHECK(c, m)
#define SAFE(c, m) ((void) (c))
#endif
#if defined(ALIASED) && FAIL
#define MAILSAFE "results never go to mail when the folders could not be listed"
#else
#define MAILSAFE "mail is never changed, removed or added to"
#endif
int vh_unlink(const char *p)
{
  int i;
  if (is_tmp(p)) { lock_tmp = 0; return 0; }
  if (!strcmp(p, LOCKNAME)) { LOCKED(lock_held || stale, "only a lock that is held is released"); lock_held = 0; armed = 0; return 0; }
  i = walk(p, NULL, NULL);
  if (i < 0) { errno = ENOENT; return -1; }
  SAFE(!below(i, "b"), MAILSAFE);
  SAFE(below(i, "r") || below(i, "r2"), "nothing but earlier results is removed");
  if (fails()) return -1;
  if (N[i].k == DIRK) { errno = EISDIR; return -1; }
  N[i].k = NONE; return 0;
}
int vh_remove(const char *p) { return vh_unlink(p); }
int vh_rmdir(const char *p) { SAFE(0, "no directory is removed"); return -1; }
int vh_rename(const char *a, const char *b) { SAFE(0, "nothing is renamed"); return -1; }
static int create(const char *p, enum kind k)
{
  int d = -1, i; const char *last = NULL;
  i = walk(p, &d, &last);
  if (i != -1) { errno = EEXIST; return -1; }
  if (d == -1) { errno = ENOENT; return -1; }
  i = mk(d, last, k);
  SAFE(!below(i, "b"), MAILSAFE);
  SAFE(below(i, "r") || below(i, "r2") || below(i, "d"), "only the index and the result folder are created");
  return i;
}
int vh_mkdir(const char *p, mode_t m) { if (fails()) return -1; return create(p, DIRK) < 0 ? -1 : 0; }
int vh_symlink(const char *a, const char *b) { int i; if (fails()) return -1; i = create(b, LINK); if (i < 0) return -1; N[i].to = strdup(a); return 0; }
int vh_link(const char *a, const char *b)
{
  int s, i;
  if (is_tmp(a)) { LOCKED(!strcmp(b, LOCKNAME) && !lock_held, "the lock is taken once"); lock_held = 1; armed = 1; return 0; }
  if (fails()) return -1;
  s = walk(a, NULL, NULL);
  if (s < 0) { errno = ENOENT; return -1; }
  i = create(b, REG); if (i < 0) return -1;
  N[i].d = N[s].d; N[i].n = N[s].n; return 0;
}
static struct dh { int node, pos, open; struct dirent de; } dh[4];
DIR *vh_opendir(const char *p)
{
  int i, k;
  if (fails()) return NULL;
  i = node_of(p, 1);
  if (i == -1 || (i != ROOT && N[i].k != DIRK)) { errno = ENOENT; return NULL; }
  for (k = 0; k < 4 && dh[k].open; k++) ;
  CHECK(k < 4, "directories are closed after use");
  dh[k].node = i; dh[k].pos = -2; dh[k].open = 1;
  return (DIR *) &dh[k];
}
struct dirent *vh_readdir(DIR *d)
{
  struct dh *h = (struct dh *) d;
  if (h->pos == -2) { h->pos++; strcpy(h->de.d_name, ".."); return &h->de; }
  if (h->pos == -1) { h->pos++; strcpy(h->de.d_name, "."); return &h->de; }
  while (h->pos < nn) { int i = h->pos++; if (N[i].parent == h->node && N[i].k != NONE) { strcpy(h->de.d_name, N[i].name); return &h->de; } }
  return NULL;
}
int vh_closedir(DIR *d) { ((struct dh *) d)->open = 0; return 0; }
/* files by descriptor; mappings are copies of exactly the mapped size */
static struct fd { int node, open, w; long pos; } fd[4];
static struct map { char *p; size_t n; int node, w; } maps[4];
int vh_open(const char *p, int flags, ...)
{
  int i, k, w = (flags & O_ACCMODE) != O_RDONLY;
  if (fails()) return -1;
  i = node_of(p, 1);
  if (i == -1 && (flags & O_CREAT)) i = create(p, REG);
  if (i < 0) { errno = ENOENT; return -1; }
  if (w) SAFE(!below(i, "b"), MAILSAFE);
  if (flags & O_TRUNC) N[i].n = 0;
  for (k = 0; k < 4 && fd[k].open; k++) ;
  CHECK(k < 4, "files are closed after use");
  fd[k].open = 1; fd[k].node = i; fd[k].w = w; fd[k].pos = 0; return 7 + k;
}
static struct fd *fdp(int f) { CHECK(f >= 7 && f < 11 && fd[f - 7].open, "only open files are used"); return &fd[f - 7]; }
#define FD(f) fdp(f)
int vh_close(int f) { FD(f)->open = 0; return fails() ? -1 : 0; }
int vh_fstat(int f, struct stat *sb) { if (fails()) return -1; return stnode(FD(f)->node, sb); }
static void resize(struct node *x, int n) { char *q = malloc(n ? n : 1); int i; for (i = 0; i < n; i++) q[i] = i < x->n ? x->d[i] : 0; x->d = q; x->n = n; }
int vh_ftruncate(int f, off_t n) { if (fails()) return -1; CHECK(FD(f)->w, "opened for writing"); resize(&N[FD(f)->node], n); return 0; }
off_t vh_lseek(int f, off_t off, int wh) { if (fails()) return -1; FD(f)->pos = wh == SEEK_SET ? off : wh == SEEK_CUR ? FD(f)->pos + off : N[FD(f)->node].n + off; return FD(f)->pos; }
ssize_t vh_read(int f, void *b, size_t n) { CHECK(0, "nothing is read that way"); return -1; }
ssize_t vh_write(int f, const void *b, size_t n)
{ struct fd *h; struct node *x; size_t i; if (f == 2) return n; h = FD(f); x = &N[h->node]; CHECK(h->w, "opened for writing"); if (fails()) return -1; if (x->n < h->pos + (long) n) resize(x, h->pos + n); for (i = 0; i < n; i++) x->d[h->pos + i] = ((const char *) b)[i]; h->pos += n; return n; }
void *vh_mmap(void *a, size_t len, int prot, int flags, int f, off_t off)
{
  struct node *x = &N[FD(f)->node]; int k;
  if (fails()) return MAP_FAILED;
  CHECK(len > 0 && (long) len <= x->n && off == 0, "nothing beyond the end of a file is mapped");
  for (k = 0; k < 4 && maps[k].p; k++) ;
  CHECK(k < 4, "mappings are released after use");
  maps[k].p = malloc(len); memcpy(maps[k].p, x->d, len); maps[k].n = len; maps[k].node = FD(f)->node; maps[k].w = prot & PROT_WRITE && flags & MAP_SHARED;
  if (maps[k].w) SAFE(!below(FD(f)->node, "b"), MAILSAFE);
  return maps[k].p;
}
int vh_munmap(void *a, size_t len)
{
  int k; for (k = 0; k < 4; k++) if (maps[k].p == a) break;
  CHECK(k < 4 && len == maps[k].n, "a mapping is released whole, once");
  if (fails()) return -1;
  if (maps[k].w) memcpy(N[maps[k].node].d, a, len);
  free(a); maps[k].p = NULL; return 0;
}
int vh_fsync(int f) { return fails() ? -1 : 0; }
/* files by name */
static char rc[200]; static int rclen, rcpos; static char rcf, tmpf;
static struct fh { int node, open; } fh[3];
FILE *vh_fopen(const char *p, const char *mode)
{
  int i, k, excl = 0; const char *q;
  if (!strcmp(p, "rc")) { rcpos = 0; return (FILE *) &rcf; }
  if (is_tmp(p)) { lock_tmp = 1; return (FILE *) &tmpf; }
  if (fails()) return NULL;
  for (q = mode; *q; q++) if (*q == 'x') excl = 1;
  i = node_of(p, 1);
  if (i >= 0 && excl) { errno = EEXIST; return NULL; }
  if (i == -1 && mode[0] != 'r') i = create(p, REG);
  if (i < 0 || N[i].k == DIRK) { errno = ENOENT; return NULL; }
  if (mode[0] != 'r') { SAFE(!below(i, "b"), MAILSAFE); SAFE(below(i, "r") || below(i, "r2"), "nothing but results is written"); }
  if (mode[0] == 'w') N[i].n = 0;
  for (k = 0; k < 3 && fh[k].open; k++) ;
  CHECK(k < 3, "files are closed after use");
  fh[k].open = 1; fh[k].node = i; return (FILE *) &fh[k];
}
int vh_fclose(FILE *f) { int k; for (k = 0; k < 3; k++) if (f == (FILE *) &fh[k]) fh[k].open = 0; return 0; }
static int put(FILE *f, const char *p, int n)
{ int i; struct node *x; if (f == stderr || f == stdout || f == (FILE *) &tmpf) return n; if (fails()) return 0; CHECK(((struct fh *) f)->open, "only open files are written"); x = &N[((struct fh *) f)->node]; i = x->n; resize(x, i + n); memcpy(x->d + i, p, n); return n; }
size_t vh_fwrite(const void *p, size_t sz, size_t n, FILE *f) { return put(f, p, sz * n) || !(sz * n) ? n : 0; }
int vh_fputs(const char *s, FILE *f) { put(f, s, strlen(s)); return 0; }
int vh_fputc(int c, FILE *f) { char b = c; put(f, &b, 1); return c; }
int vh_fprintf(FILE *f, const char *fmt, ...)
{ char b[128]; va_list ap; int n; if (f == stderr || f == (FILE *) &tmpf) { va_start(ap, fmt); if (f == stderr) vfprintf(stderr, fmt, ap); va_end(ap); return 0; } va_start(ap, fmt); n = vsnprintf(b, sizeof b, fmt, ap); va_end(ap); put(f, b, n); return n; }
char *vh_fgets(char *s, int n, FILE *f)
{ int k = 0; CHECK(f == (FILE *) &rcf, "only the settings are read by line"); while (k < n - 1 && rcpos < rclen) { s[k] = rc[rcpos++]; if (s[k++] == '\n') break; } if (!k) return NULL; s[k] = 0; return s; }
FILE *vh_tmpfile(void) { CHECK(0, "no temporary files"); return NULL; }
int vh_fileno(FILE *f) { return 1; }
#ifndef OUTMAX
#define OUTMAX 400
#endif
static char out[OUTMAX]; static int outn;
int vh_printf(const char *fmt, ...) { va_list ap; int n; va_start(ap, fmt); n = vsnprintf(out + outn, sizeof out - outn, fmt, ap); va_end(ap); if (n > 0 && outn + n < OUTMAX - 100) outn += n; return n; }
int vh_puts(const char *s) { return vh_printf("%s\n", s); }
int vh_putchar(int c) { return vh_printf("%c", c); }
/* ---- the rest of the world ---- */
int vh_uname(struct utsname *u) { memset(u, 0, sizeof *u); strcpy(u->nodename, "n"); return 0; }
pid_t vh_getpid(void) { return 77; }
int vh_kill(pid_t p, int s) { CHECK(0, "no process is signalled"); return -1; }
static struct passwd pw;
struct passwd *vh_getpwuid(uid_t u) { pw.pw_name = "u"; pw.pw_dir = "/h"; return &pw; }
static const char *e_maildir, *e_mh, *e_mbox;
char *vh_getenv(const char *n)
{
  if (!strcmp(n, "HOME")) return "/h";
  if (!strcmp(n, "MAIRIX_FOLDER_BASE")) return "/b";
  if (!strcmp(n, "MAIRIX_DATABASE")) return "/d";
  if (!strcmp(n, "MAIRIX_MFOLDER")) return "/r";
  if (!strcmp(n, "MAIRIX_MAILDIR_FOLDERS")) return (char *) e_maildir;
  if (!strcmp(n, "MAIRIX_MH_FOLDERS")) return (char *) e_mh;
  if (!strcmp(n, "MAIRIX_MBOXEN")) return (char *) e_mbox;
  return NULL;
}
void (*vh_signal(int s, void (*h)(int)))(int) { return NULL; }
/* a calendar of 12 months of 31 days */
static struct tm tmv; static int zone; /* hours east */
time_t vh_time(time_t *t) { time_t v = (time_t) 86400 * (31 * (12 * 110 + 5) + 14); if (t) *t = v; return v; }
struct tm *vh_gmtime(const time_t *t) { long d = *t / 86400; memset(&tmv, 0, sizeof tmv); tmv.tm_year = d / 372; tmv.tm_mon = d % 372 / 31; tmv.tm_mday = d % 31 + 1; tmv.tm_hour = *t % 86400 / 3600; return &tmv; }
struct tm *vh_localtime(const time_t *t) { time_t u = *t + zone * 3600; return vh_gmtime(&u); }
time_t vh_mktime(struct tm *t) { return 86400 * (372L * t->tm_year + 31 * t->tm_mon + t->tm_mday - 1) + 3600 * (t->tm_hour - zone) + 60 * t->tm_min + t->tm_sec; }
#ifdef EXCERPT
size_t vh_strftime(char *s, size_t n, const char *f, const struct tm *t) { CHECK(!strcmp(f, "%a, %d %b %Y"), "harness: a date format it knows"); return sprintf(s, "<%d.%d.%d>", t->tm_mday, t->tm_mon + 1, t->tm_year + 1900); }
#else
size_t vh_strftime(char *s, size_t n, const char *f, const struct tm *t) { s[0] = 0; return 0; }
#endif
#ifndef IMAPMIX
struct imap_ll *imap_start(const char *a, const char *b, const char *c, const char *d) { return NULL; }
void build_imap_message_list(const char *f, struct msgpath_array *m, struct globber_array *o, struct imap_ll *i) { }
#endif
static void ended(int code, int gave_up);
void vh_exit(int code) { ended(code, 1); exit(0); }
static void check_end(void)
{
  LOCKED(!lock_held, "the lock is released when the run ends");
  LOCKED(!lock_tmp, "no temporary file is left behind");
}
/* ---- setting things up ---- */
static int D_b, D_m, D_cur, D_new, D_h, F_x = -1, D_r;
static void settext(int i, const char *s) { N[i].n = strlen(s); N[i].d = malloc(N[i].n + 1); strcpy(N[i].d, s); N[i].mail = 1; }
static void rc_add(const char *s) { while (*s) rc[rclen++] = *s++; }
static int loud; extern int verbose;
static int run(const char *a1, const char *a2, const char *a3, const char *a4)
{
  char *argv[10]; int n = 0, r;
  argv[n++] = "mairix"; argv[n++] = "-f"; argv[n++] = "rc"; verbose = 0; if (loud) argv[n++] = "-v";
  if (a1) argv[n++] = (char *) a1;
  if (a2) argv[n++] = (char *) a2; if (a3) argv[n++] = (char *) a3; if (a4) argv[n++] = (char *) a4;
  argv[n] = NULL;
  r = mx_main(n, argv);
  check_end();
  return r;
}
static void tree(void)
{
  D_b = mk(ROOT, "b", DIRK);
  D_m = mk(D_b, "m", DIRK); D_cur = mk(D_m, "cur", DIRK); D_new = mk(D_m, "new", DIRK); mk(D_m, "tmp", DIRK);
}

#ifdef FAIL
/* ---- giving up at any point ---- */
static int trial;
static void ended(int code, int gave_up) { check_end(); CHECK(trial, "harness: the index could not be made"); COVER_IF(failed, "gave up after a failing call"); COVER_IF(!failed, "gave up"); }
static const char *longpat = "s:aaaaaaaaaabbbbbbbbbbccccccccccdddddddddd=1";
static void link_r(const char *to) { D_r = mk(ROOT, "r", LINK); N[D_r].to = (char *) to; }
void harness(void)
{
  static const char *fmts[] = { "maildir", "mh", "mbox", "raw", "excerpt" };
  static const char *bad[] = { "d:1x", "z:q-", "m:<i>", "s:=1", "nn", "x:w", "F:x", "d:-", "p:", "s:ab=9" };
  int i, fmt, n, damage; const char *arg, *arg2 = NULL;
  loud = CHOOSE(0, 1);
  tree();
  settext(mk(D_cur, "a:2,S", REG), "From: ab@cd\nSubject: ww\nMessage-ID: <i>\nDate: Mon, 3 Apr 2006 10:00:00 +0000\n\nyy zz\n");
  F_x = mk(D_b, "x", REG);
  settext(F_x, "From a@b.c Mon Apr  3 10:00:00 2006\nSubject: ww\n\nqq\n");
  e_maildir = "m"; e_mbox = "x";
#ifdef ALIASED
  D_h = mk(D_b, "h", DIRK); settext(mk(D_h, "1", REG), "Subject: ww\n\n"); mk(D_h, ".mh_sequences", REG);
  i = mk(D_b, "lx", LINK); N[i].to = "/b/x"; i = mk(D_b, "lh", LINK); N[i].to = "/b/h";
  e_mh = "h"; e_mbox = CHOOSE(0, 1) ? "lx" : "x";
#endif
  fmt = CHOOSE(0, 4);
  rc_add("mformat="); rc_add(fmts[fmt]); rc_add("\n");
  CHECK(run(NULL, NULL, NULL, NULL) == 0, "harness: indexed");
  /* now anything may go wrong */
  trial = 1; fault = any_pos(FAIL); faulty = 1; calls = 0;
#ifdef ALIASED
  /* the result folder is a link, to an indexed folder or not */
  static const char *to[] = { "/b/x", "/b/m", "/b/h", "/b/lx", "/b/lh", "/r2", "/r3" };
  if (!FAIL) faulty = 0;
  i = CHOOSE(0, FAIL ? 4 : 6); link_r(to[i]);
  if (i == 5) mk(ROOT, "r2", DIRK);
  arg = CHOOSE(0, 1) ? "-a" : NULL;
  n = arg ? run(arg, "ww", NULL, NULL) : run("ww", NULL, NULL, NULL);
  COVER("results delivered");
  return;
#endif
  switch (CHOOSE(0, 3)) {
    case 0: break;
    case 1: D_r = mk(ROOT, "r", REG); break;
    case 2: D_r = mk(ROOT, "r", DIRK); mk(D_r, "cur", DIRK); mk(D_r, "new", DIRK); mk(D_r, "tmp", DIRK); mk(D_r, "1", REG); break;
    default: D_r = mk(ROOT, "r", DIRK); mk(mk(D_r, "cur", DIRK), "123456789.0.mairix", REG); break;
  }
  i = child(ROOT, "d", 1);
  damage = CHOOSE(0, 6);
  switch (damage) {
    case 0: break;
    case 1: N[i].k = NONE; break;
    case 2: N[i].k = DIRK; break;
    case 3: N[i].n = 0; break;
    case 4: N[i].d[3] ^= 1; break;
    case 5: N[i].d[4] ^= 1; break;
    default: N[i].n = 160; break;
  }
  n = CHOOSE(0, fmt || D_r ? 0 : 3) ? CHOOSE(1, 3) : 0;
  if (damage && fmt) return;
  switch (n) {
    case 0: /* a search */
      i = CHOOSE(0, damage || fmt == 1 ? 0 : 12);
      arg = i == 0 ? "w" : i == 1 ? longpat : i == 12 ? "d:3jan" : bad[i - 2];
      if (i == 0) arg = "ww";
      if (i == 4) arg2 = "ww";
      n = run(arg, arg2, NULL, NULL);
      COVER("search ended"); break;
    case 1: /* indexing */
      N[F_x].mtime = 2; if (CHOOSE(0, 1)) settext(F_x, "From a@b.c Mon Apr  3 10:00:00 2006\nSubject: vv\n\nqq\nFrom a@b.c Mon Apr  3 10:00:00 2006\nSubject: ww\n\nqq\n");
      i = CHOOSE(0, 2);
      if (i) { settext(mk(D_new, "b", REG), "Subject: uu\n\nrr\n"); if (i == 2) e_maildir = "m:m"; }
      n = run("-p", NULL, NULL, NULL);
      COVER("indexing ended"); break;
    case 2: n = run("-d", NULL, NULL, NULL); COVER("dump ended"); break;
    default: e_maildir = "gone"; e_mbox = "gone"; n = run("-p", NULL, NULL, NULL); break;
  }
  COVER_IF(failed, "went on after a failing call");
}
#endif

#if defined(FIND)
/* ---- a search finds what is there now ---- */
/* messages 0-2 are files, 3 and up are in the mailbox, in order */
#define NF 3
#define NX 4
static const char *fpath[NF] = { "/b/m/cur/a:2,S", "/b/m/new/b", "/b/h/1" };
static int fnode[NF]; static unsigned char fl[NF];
static int nbox, boxid[NX], nextid; static unsigned char bl[NX];
static int D_hh, phase, ever;
#ifndef LETTERS
#define LETTERS 100
#endif
static int letters;
static unsigned char letter(void) { unsigned char c; if (letters++ >= LETTERS) return 'a'; c = sym_u8(); ASSUME(vor(c == 'a', c == 'b')); return c; }
/* an ideal checksum, for texts of this form */
#include "md5.h"
static int sumn; static unsigned char sum[3];
void MD5Init(MD5_CTX *c) { sumn = 0; sum[0] = sum[1] = 0; }
void MD5Update(MD5_CTX *c, unsigned const char *p, unsigned int n) { unsigned i; for (i = 0; i < n; i++) sum[sumn++ & 1] ^= p[i]; }
void MD5Final(MD5_CTX *c) { memset(c->digest, 0, 16); c->digest[0] = sum[0]; c->digest[1] = sum[1]; c->digest[2] = sumn; c->digest[3] = sumn >> 8; }
unsigned int hashfn(unsigned char *k, unsigned int length, unsigned int initval) { return length * 7; }
static unsigned stamp(void) { unsigned char c = sym_u8(); ASSUME(c <= 3); return 1000000000u + c; }
static void put_file(int i)
{
  ever = 1;
  static const char t[] = "Subject: w_\n\nyy\n"; int n;
  fnode[i] = n = mk(i == 0 ? D_cur : i == 1 ? D_new : D_hh, strrchr(fpath[i], '/') + 1, REG);
  fl[i] = letter(); settext(n, t); N[n].d[10] = fl[i]; N[n].mtime = stamp();
}
static void drop_file(int i) { N[fnode[i]].k = NONE; N[fnode[i]].busy = 1; fnode[i] = -1; }
static unsigned boxtime;
static void fill_box(int first)
{
  static const char t[] = "From a@b.c Mon Apr  3 10:00:00 2006\nMessage-ID: <_>\nSubject: w_\n\nqq\n\n"; const int L = sizeof t - 1, K = L - 18;
  int i, o = N[F_x].n; unsigned was = N[F_x].mtime;
  N[F_x].n = nbox * L; N[F_x].d = malloc(nbox * L + 1); N[F_x].mail = 1;
  for (i = 0; i < nbox; i++) { memcpy(N[F_x].d + i * L, t, L); N[F_x].d[i * L + 49] = boxid[i]; N[F_x].d[i * L + 62] = bl[i]; }
  N[F_x].mtime = stamp(); if (!first && o == N[F_x].n) ASSUME(N[F_x].mtime != was);
}
static void add_box(void) { ever = 1; boxid[nbox] = '3' + nextid++; bl[nbox++] = letter(); }
static void cut_box(int k) { for (nbox--; k < nbox; k++) { boxid[k] = boxid[k + 1]; bl[k] = bl[k + 1]; } }
static unsigned char q;
static int change(void)
{
  int i, k = CHOOSE(0, OPS); unsigned t;
#ifdef BOTH
  if (k == OPS) { /* at several places at once */
    if (fnode[1] < 0) put_file(1); else drop_file(1);
    if (nbox < NX) { add_box(); fill_box(0); }
    COVER("a file and a mailbox changed"); return 1;
  }
#endif
  switch (k) {
    case 0: return 0;
    case 1: case 2: case 3: /* a file comes or goes */
      i = k - 1;
      if (fnode[i] >= 0) { drop_file(i); COVER("a file gone"); } else { put_file(i); COVER("a file added"); }
      return 1;
    case 4: if (nbox == NX) return 1; add_box(); fill_box(0); return 1;
    case 5: if (!nbox) return 1; cut_box(CHOOSE(0, nbox - 1)); fill_box(0); COVER("a mailbox message gone"); return 1;
    case 6: /* a file is replaced */
      i = CHOOSE(0, 1) ? 2 : 0; if (fnode[i] < 0) return 1;
      t = N[fnode[i]].mtime; drop_file(i); put_file(i); ASSUME(N[fnode[i]].mtime != t); COVER("a file replaced"); return 1;
    case 7: nbox = 0; fill_box(0); return 1;
    case 8: if (!nbox || nbox == NX) return 1; cut_box(0); add_box(); fill_box(0); return 1;
    default: if (F_x < 0) return 1; if (nbox && CHOOSE(0, 1)) { bl[nbox - 1] = letter(); boxid[nbox - 1] = '3' + nextid++; fill_box(0); } return 1;
  }
}
static void expect(void)
{
  int i, j, d, found[NF + NX] = {0}, any = 0, r;
  char a[6]; 
  strcpy(a, "s:w_"); a[3] = q;
  phase = 9; armed = 0;
  r = run(a, NULL, NULL, NULL);
  D_r = child(ROOT, "r", 1);
  for (i = 0; i < nn; i++) {
    if (N[i].k == NONE || N[i].k == DIRK || !below(i, "r")) continue;
    for (j = 0; j < NF; j++) if (N[i].k == LINK && !strcmp(N[i].to, fpath[j])) break;
    if (j < NF) { CHECK(fnode[j] >= 0, "only messages that are there are found"); CHECK(fl[j] == q, "only messages with the word are found"); CHECK(!found[j], "once"); found[j] = 1; any = 1; continue; }
    CHECK(N[i].k == REG, "links lead to messages");
    for (d = 0; d + 1 < N[i].n; d++) if (N[i].d[d] == '<') break;
    for (j = 0; j < nbox; j++) if (N[i].d[d + 1] == boxid[j]) break;
    CHECK(j < nbox, "only messages that are there are found"); CHECK(bl[j] == q, "only messages with the word are found"); CHECK(!found[NF + j], "once"); found[NF + j] = 1; any = 1;
  }
  for (j = 0; j < NF; j++) if (fnode[j] >= 0) CHECK(vor(fl[j] != q, found[j]), "every message with the word is found");
  for (j = 0; j < nbox; j++) CHECK(vor(bl[j] != q, found[NF + j]), "every message with the word is found");
  CHECK((r == 0) == (any != 0), "the exit status says whether anything was found");
  COVER_IF(any, "found"); COVER_IF(!any, "nothing found");
}
static void last_run(void)
{
  phase = 8; armed = 0; faulty = 0;
  CHECK(run(!stale && CHOOSE(0, 1) ? "-p" : NULL, stale ? "--unlock" : NULL, NULL, NULL) == 0, "the run succeeds");
  expect();
}
#ifdef KILLED
static int killable, killed_writing; static unsigned kills; static struct pos kill_at;
/* called in every basic block of the code that writes the index */
void __sanitizer_cov_trace_pc(void)
{
  int k;
  if (!killable || !at(kill_at, kills++)) return;
  /* the run is killed: what it has stored in the file stays */
  killable = 0; COVER("killed");
  for (k = 0; k < 4; k++) if (fd[k].open && fd[k].w) killed_writing = 1;
  for (k = 0; k < 4; k++) { if (maps[k].p && maps[k].w) { memcpy(N[maps[k].node].d, maps[k].p, maps[k].n); killed_writing = 1; } fd[k].open = 0; maps[k].p = NULL; dh[k].open = 0; }
  phase = 3; lock_tmp = 0; stale = 1;
  last_run(); exit(0);
}
#endif
static void ended(int code, int gave_up)
{
  int k;
  check_end(); CHECK(code != 0, "giving up is an error");
#ifdef KILLED
  if (phase == 8) { CHECK(killed_writing, "an index is only refused when it was damaged"); COVER("index found damaged"); return; }
#endif
#ifdef RECOVER
  if (phase == 2) { CHECK(failed, "a run only gives up when something failed"); for (k = 0; k < 4; k++) { fd[k].open = 0; maps[k].p = NULL; dh[k].open = 0; } COVER("gave up"); last_run(); return; }
  if (phase == 8) { CHECK(failed, "a run only gives up when something failed"); COVER("index found damaged"); return; }
#endif
  if (phase == 9 && child(ROOT, "d", 1) < 0 && !ever) return; /* nothing to index so far, so no index */
  CHECK(0, "the run does not give up");
}
void harness(void)
{
#ifdef FEW
  int i, mask = CHOOSE(0, 1) ? 7 : 0;
#else
  int i, mask = CHOOSE(0, 7);
#endif
#ifndef RECOVER
  loud = CHOOSE(0, 1);
#endif
  tree(); D_hh = mk(D_b, "h", DIRK); mk(D_hh, ".xmhcache", REG);
  e_maildir = "m"; e_mh = "h";
  rc_add("mformat=maildir\n");
  for (i = 0; i < NF; i++) { fnode[i] = -1; if (mask >> i & 1) put_file(i); }
  F_x = mk(D_b, "x", REG); e_mbox = "x";
#ifdef FEW
  for (i = CHOOSE(0, 1); i; i--) add_box();
#else
  for (i = CHOOSE(0, 2); i; i--) add_box();
#endif
  fill_box(1);
  q = letter();
  phase = 1;
  CHECK(run(NULL, NULL, NULL, NULL) == 0, "the run succeeds");
#if defined(KILLED)
  change(); phase = 2; kill_at = any_pos(KILLED); kills = 0; killable = 1;
  i = run(CHOOSE(0, 1) ? "-p" : NULL, NULL, NULL, NULL);
  killable = 0; COVER("not killed"); last_run();
#elif defined(RECOVER)
  change(); phase = 2; fault = any_pos(400); faulty = 1; calls = 0;
  i = run(CHOOSE(0, 1) ? "-p" : NULL, NULL, NULL, NULL);
  CHECK(i == 0, "the run succeeds"); COVER_IF(failed, "went on after a failing call");
  last_run();
#else
  for (i = 0; i < RUNS; i++) {
    change(); if (i + 1 == RUNS) break;
    CHECK(run(CHOOSE(0, 1) ? "-p" : NULL, NULL, NULL, NULL) == 0, "the run succeeds");
  }
  last_run();
#endif
}
#endif

#if defined(KEYS)
/* ---- every part of a message, from the mail to the search ---- */
/* message 0: a file, 1: in the mailbox, 2: an MH message */
enum { TO, CC, FROM, SUBJ, BODY, NAME, ATT, MID, NFIELD };
#define NMSG 3
static int field[NMSG]; static unsigned char let[NMSG], day[NMSG]; static int flag;
static char text[NMSG][600]; static int tn;
unsigned int hashfn(unsigned char *k, unsigned int length, unsigned int initval) { return length * 7; }
static int sumn; static unsigned char sum[3];
#include "md5.h"
void MD5Init(MD5_CTX *c) { sumn = 0; sum[0] = sum[1] = 0; }
void MD5Update(MD5_CTX *c, unsigned const char *p, unsigned int n) { unsigned i; for (i = 0; i < n; i++) sum[sumn++ & 1] ^= p[i]; }
void MD5Final(MD5_CTX *c) { memset(c->digest, 0, 16); c->digest[0] = sum[0]; c->digest[1] = sum[1]; c->digest[2] = sumn; c->digest[3] = sumn >> 8; }
static char *T; static void t_(const char *s) { while (*s) T[tn++] = *s++; T[tn] = 0; }
static unsigned char letter(void) { unsigned char c = sym_u8(); ASSUME(vor(c == 'a', c == 'b')); return c; }
/* the word of the message, if this is where it goes */
static void w_(int m, int f) { if (field[m] == f) { char b[3] = { 'w', let[m], 0 }; t_(b); } else t_("zz"); }
static void compose(int m)
{
  char b[2] = { '0' + m, 0 };
  T = text[m]; tn = 0;
  t_("To: "); w_(m, TO); t_("@tt.org\nCc: "); w_(m, CC); t_("@cc.org\nFrom: "); w_(m, FROM); t_("@ff.org\nSubject: re "); w_(m, SUBJ);
  t_("\nMessage-ID: <"); w_(m, MID); t_(b); t_(">\nDate: Mon, "); b[0] = day[m]; t_("1"); t_(b); t_(" Apr 2006 10:00:00 +0000\n");
  if (field[m] == NAME || field[m] == ATT) {
    t_("Content-Type: multipart/mixed; boundary=\"=x\"\n\n--=x\nContent-Type: text/plain; name=\""); w_(m, NAME); t_(".Txt\"\nContent-Disposition: attachment\n\n"); w_(m, ATT); t_("\n--=x--\n");
  } else { t_("\n"); w_(m, BODY); t_("\n"); }
}
static void ended(int code, int gave_up) { check_end(); CHECK(0, "the run does not give up"); }
static int in_key(int key, int f)
{
  /* none, t, c, f, a, s, b, n, tc, bs */
  switch (f) {
    case TO: return key == 0 || key == 1 || key == 4 || key == 8;
    case CC: return key == 0 || key == 2 || key == 4 || key == 8;
    case FROM: return key == 0 || key == 3 || key == 4;
    case SUBJ: return key == 0 || key == 5 || key == 9;
    case BODY: case ATT: return key == 0 || key == 6 || key == 9;
    case NAME: return key == 7;
    default: return 0;
  }
}
void harness(void)
{
  static const char *keys[] = { "", "t:", "c:", "f:", "a:", "s:", "b:", "n:", "tc:", "bs:" };
  static const char *paths[] = { "/b/m/cur/a", "", "/b/h/1" };
  char a[24], nm[12]; int i, n, m, got[NMSG] = {0}, d, node[NMSG], want, any = 0, r, key, neg = 0, hh; unsigned char q, q2;
  loud = CHOOSE(0, 1);
  tree(); hh = mk(D_b, "h", DIRK); mk(hh, ".xmhcache", REG);
  e_maildir = "m"; e_mh = "h"; e_mbox = "x"; rc_add("mformat=maildir\n");
  field[0] = CHOOSE(0, NFIELD - 1); field[1] = CHOOSE(0, NFIELD - 1); field[2] = SUBJ;
  for (m = 0; m < NMSG; m++) { let[m] = m == 2 ? 'a' : letter(); day[m] = '5' + m; }
#ifdef DAYS
  day[0] = sym_u8(); ASSUME(day[0] >= '0' && day[0] <= '9');
#endif
  flag = CHOOSE(0, 3);
  strcpy(nm, "a:2,"); if (flag & 1) strcat(nm, "R"); if (flag & 2) strcat(nm, "S");
  if (!flag) nm[1] = 0;
  for (m = 0; m < NMSG; m++) compose(m);
  settext(node[0] = mk(D_cur, nm, REG), text[0]);
  settext(node[2] = mk(hh, "1", REG), text[2]);
  F_x = mk(D_b, "x", REG); T = malloc(700); tn = 0; t_("From a@b.c Mon Apr  3 10:00:00 2006\n"); t_(text[1]); t_("\n"); settext(F_x, T);
  CHECK(run(NULL, NULL, NULL, NULL) == 0, "the run succeeds");
  /* ask */
  q = letter(); n = 0;
  key = CHOOSE(0, 18);
  if (flag && key != 15) return;
  if ((neg = key < 10 ? CHOOSE(0, 1) : 0)) {}
  switch (key) {
    default: strcpy(a, keys[key]); if (neg) strcat(a, "~"); n = strlen(a); a[n++] = 'w'; a[n++] = q; a[n] = 0; if (key == 7) strcat(a, CHOOSE(0, 1) ? "=" : ".txt"); break;
    case 10: strcpy(a, "m:"); n = 2; a[n++] = 'w'; a[n++] = q; a[n++] = '0' + (CHOOSE(0, 1)); a[n] = 0; break;
    case 11: strcpy(a, "d:2006041_"); q2 = sym_u8(); ASSUME(q2 >= '3' && q2 <= '8'); a[9] = q2; a[10] = '-'; a[11] = 0; break;
    case 12: strcpy(a, "s:w_,"); a[3] = q; a[5] = 0; strcpy(a + 4, "/re"); break;
    case 13: strcpy(a, "s:w_,re"); a[3] = q; break;
    case 14: strcpy(a, "p:h"); break;
    case 15: strcpy(a, CHOOSE(0, 1) ? "F:s" : "F:-r"); break;
    case 16: strcpy(a, "z:-"); n = CHOOSE(0, 2); d = strlen(text[0]); if (n == 0) d++; else if (n == 1) d--; else return; { char b[12]; int k = 0; while (d) { b[k++] = '0' + d % 10; d /= 10; } n = 3; while (k) a[n++] = b[--k]; a[n] = 0; d = 0; } break;
    case 17: strcpy(a, "w_="); a[1] = q; break;
    case 18: strcpy(a, "s:^w"); a[4] = '='; a[5] = 0; break;
  }
  r = run(a, NULL, NULL, NULL);
  for (i = 0; i < nn; i++) {
    if (N[i].k == NONE || N[i].k == DIRK || !below(i, "r")) continue;
    if (N[i].k == LINK) { m = walk(N[i].to, NULL, NULL); for (d = 0; d < 3; d += 2) if (m == node[d]) break; CHECK(d < 3, "links lead to messages"); }
    else d = 1;
    CHECK(!got[d], "once"); got[d] = 1; any = 1;
  }
  for (m = 0; m < NMSG; m++) {
    int f = field[m], has = let[m] == q, w0 = 0;
    switch (key) {
      default: w0 = neg ? !vand(in_key(key, f), has) : vand(in_key(key, f), has); break;
      case 10: w0 = vand(f == MID && a[4] == '0' + m, has); break;
      case 11: if (day[m] == q2) continue; /* open: whether the first day counts */ w0 = day[m] > q2; break;
      case 12: w0 = 1; break;
      case 13: w0 = vand(f == SUBJ, has); break;
      case 14: w0 = m == 2; break;
      case 15: w0 = a[2] == 's' ? m == 0 && (flag & 2) != 0 : !(m == 0 && (flag & 1)); break;
      case 16: continue;
      case 17: w0 = f <= BODY || f == ATT ? has : 0; break;
      case 18: w0 = f == SUBJ; break;
    }
    CHECK(!w0 == !got[m], "a search finds exactly the messages that have the word where it is looked for");
  }
  if (key == 16) CHECK(got[0] == (n && strlen(a) && atoi(a + 3) > (int) strlen(text[0])), "by size");
  CHECK((r == 0) == (any != 0), "the exit status says whether anything was found");
  COVER_IF(any, "found"); COVER_IF(!any, "nothing found");
}
#endif

#if defined(EXCERPT)
/* ---- what is shown of the messages found ---- */
unsigned int hashfn(unsigned char *k, unsigned int length, unsigned int initval) { return length * 7; }
static int sumn; static unsigned char sum[3];
#include "md5.h"
void MD5Init(MD5_CTX *c) { sumn = 0; sum[0] = sum[1] = 0; }
void MD5Update(MD5_CTX *c, unsigned const char *p, unsigned int n) { unsigned i; for (i = 0; i < n; i++) sum[sumn++ & 1] ^= p[i]; }
void MD5Final(MD5_CTX *c) { memset(c->digest, 0, 16); c->digest[0] = sum[0]; c->digest[1] = sum[1]; c->digest[2] = sumn; c->digest[3] = sumn >> 8; }
#define NMSG 3
static unsigned char let[NMSG]; static char text[NMSG][400], shown[NMSG][400]; static char *T;
static void t_(const char *s) { while (*s) *T++ = *s++; *T = 0; }
static void ended(int code, int gave_up) { check_end(); CHECK(0, "the run does not give up"); }
void harness(void)
{
  static const char *hdr[6][2] = { { "To", "To:         " }, { "CC", "Cc:         " }, { "From", "From:       " }, { "subject", "Subject:    " }, { "Message-Id", "Message-ID: " }, { "In-Reply-To", "In-Reply-To:" } };
  int m, h, p = 0, got[NMSG] = {0}, raw = CHOOSE(0, 1), r, any = 0, first, hh; char a[6], *e; unsigned char q, day[NMSG];
  static const int zones[] = { 0, 9, -11 };
  zone = zones[CHOOSE(0, 2)];
  tree(); hh = mk(D_b, "h", DIRK); mk(hh, ".xmhcache", REG); e_maildir = "m"; e_mh = "h"; e_mbox = "x"; rc_add("mformat=maildir\n");
  first = CHOOSE(0, 6);
  for (m = 0; m < NMSG; m++) {
    let[m] = sym_u8(); ASSUME(vor(let[m] == 'a', let[m] == 'b')); day[m] = sym_u8(); ASSUME(day[m] >= '1' && day[m] <= '9');
    e = shown[m];
    e += sprintf(e, "---------------------------------\n%s\n", m == 0 ? "/b/m/cur/a:2,S" : m == 1 ? "mbox:/b/x [38,%)" : "/b/h/1");
    T = text[m];
    for (h = 0; h < 6; h++) {
      /* the first message is without one of them */
      char w[8]; if (m == 0 && h == first && h != 3) continue;
      strcpy(w, "w_@xy"); w[1] = let[m]; if (h == 3) w[2] = 0;
      t_(hdr[h][0]); t_(": "); t_(w); t_("\n");
      e += sprintf(e, "  %s%s", hdr[h][1], h == 5 ? " " : ""); strcpy(e, w); e += strlen(w); *e++ = '\n'; *e = 0;
    }
    t_("Date: Mon, 1_ Apr 2006 00:30:00 +0000\n\nyy\n"); T[-30] = day[m];
    strcpy(e, "  Date:        <1_.4.2006>\n"); e[strlen(e) - 10] = day[m];
  }
  { /* the extent of the message in the mailbox */
    char *f = strchr(shown[1], '%'), rest[400]; strcpy(rest, f + 1); f += sprintf(f, "%d", 38 + (int) strlen(text[1])); strcpy(f, rest); }
  settext(mk(D_cur, "a:2,S", REG), text[0]); settext(mk(hh, "1", REG), text[2]);
  F_x = mk(D_b, "x", REG); T = malloc(900); e = T; t_("From a@b.cd Mon Apr  3 10:00:00 2006 \n"); CHECK(T - e == 38, "harness: extent"); t_(text[1]); settext(F_x, e);
  CHECK(run(NULL, NULL, NULL, NULL) == 0, "the run succeeds");
  q = sym_u8(); ASSUME(vor(q == 'a', q == 'b'));
  strcpy(a, "s:w_"); a[3] = q; outn = 0;
  r = run(raw ? "-r" : "-x", a, NULL, NULL);
  while (p < outn) {
    for (m = 0; m < NMSG; m++) {
      char *s = shown[m]; int n;
      if (raw) { s = strchr(s, '\n') + 1; n = strchr(s, '\n') + 1 - s; } else n = strchr(strchr(s, '\n') + 1, '\n') + 1 - s;
      if (!strncmp(out + p, s, n)) { if (!raw) n = strlen(s); break; }
    }
    CHECK(m < NMSG, "a message is listed with its place"); CHECK(!got[m], "once"); got[m] = any = 1;
    { /* blanks do not matter */
      char *s = shown[m]; int n, i, ok = 1; if (raw) { s = strchr(s, '\n') + 1; n = strchr(s, '\n') + 1 - s; } else n = strlen(s);
      for (i = 0; i < n; i++) { if (s[i] == ' ') continue; while (p < outn && out[p] == ' ') p++; CHECK(p < outn, "the headers and the date are shown"); ok = vand(ok, out[p++] == s[i]); }
      CHECK(ok, "the headers and the date are shown"); }
  }
  for (m = 0; m < NMSG; m++) CHECK((let[m] == q) == got[m], "the messages found are shown");
  CHECK((r == 0) == (any != 0), "the exit status says whether anything was found");
  COVER_IF(any, "shown"); COVER_IF(zone == 9, "east");
}
#endif

#if defined(ODD)
/* ---- messages that are no proper messages ---- */
unsigned int hashfn(unsigned char *k, unsigned int length, unsigned int initval) { return length * 7; }
static int sumn; static unsigned char sum[3];
#include "md5.h"
void MD5Init(MD5_CTX *c) { sumn = 0; sum[0] = sum[1] = 0; }
void MD5Update(MD5_CTX *c, unsigned const char *p, unsigned int n) { unsigned i; for (i = 0; i < n; i++) sum[sumn++ & 1] ^= p[i]; }
void MD5Final(MD5_CTX *c) { memset(c->digest, 0, 16); c->digest[0] = sum[0]; c->digest[1] = sum[1]; c->digest[2] = sumn; c->digest[3] = sumn >> 8; }
static void ended(int code, int gave_up) { check_end(); CHECK(0, "the run does not give up"); }
#define FROM "From a@b.cd Mon Apr  3 10:00:00 2006\n"
#define MP "Content-Type: multipart/mixed; boundary=x\n"
static const char *odd[] = {
  "", "\n", "Subject", "Subject: w%", "Sub%ect: ww\n\nyy\n", "Subject: w%\n\nyy\n", "no header\n%\nyy\n", "%: x\n\nyy\n",
  "Content-Transfer-Encoding: ;%\n\nyy\n", "Content-Type: multipart/mixed\n\nyy%\n", "Content-Type: multipart/mixed; boundary=\n\n--\n\nyy%\n----\n", MP "\nyy%\n", MP "\n--x%\n\nyy\n", MP "\n--x\n--x--%\n", MP "\n--x\n\nyy\n--x%\n",
  MP "\n--x\n" MP "\n--x\n\nyy\n--x--%\n", MP "\n--x--%\n", "Content-Type: text/plain; charset=%\nContent-Transfer-Encoding: base64\n\nyy==y\n", "Content-Transfer-Encoding: quoted-printable\n\n=%\n=", "Subject: =?x?q?=%", "Subject: =?x?b?%?=\n\nyy\n",
  "Date: %\nMessage-ID: <\nReferences: >%\nTo: <%\n\nyy\n", "Content-Type: message/rfc822\n\n%", "Content-Type: message/rfc822\n\nContent-Type: message/rfc822\n\nSubject: %\n", "Content-Type: text/html\n\n<%", "Content-Type: text/html\n\n&%;<!--", "Content-Type: text/plain; name*0*=u'%\n\nyy\n",
  "Content-Disposition: attachment; filename=\"%\n\nyy\n", "Content-Type: multipart/%; boundary=\"x\n\n--x\n\n\n--x--\n", "Status: %\nX-Status: %\n\n", " %\n %\n\n", "Content-Transfer-Encoding: uuencode\n\nbegin %\nM\nend\n", "Content-Transfer-Encoding: x-uuencode\n\nbegin 644 a\n%A\n`\nend\n" };
#define NODD (int) (sizeof odd / sizeof *odd)
void harness(void)
{
  int k = CHOOSE(0, NODD - 1), where = CHOOSE(0, 2), i, j, r, found[2] = {0}, hh, n; char *t = malloc(400), *w; const char *s = odd[k]; unsigned char b = sym_u8(), b2 = ODD > 1 ? sym_u8() : 0;
  loud = CHOOSE(0, 1);
  tree(); hh = mk(D_b, "h", DIRK); mk(hh, ".xmhcache", REG); e_maildir = "m"; e_mh = "h"; e_mbox = "x"; rc_add("mformat=maildir\n");
  F_x = mk(D_b, "x", REG); w = t; if (where == 2) { strcpy(t, FROM); w += strlen(FROM); }
  for (; *s; s++) if (*s != '%') *w++ = *s; else { *w++ = b; if (ODD > 1) *w++ = b2; } *w = 0;
  if (where == 2) { if (w[-1] != '\n') *w++ = '\n'; strcpy(w, "\n" FROM "Subject: wa\n\nyy\n"); n = w - t + strlen("\n" FROM "Subject: wa\n\nyy\n"); N[F_x].d = t; N[F_x].n = n; N[F_x].mail = 1; }
  else { settext(F_x, FROM "Subject: wa\n\nyy\n"); i = mk(where ? hh : D_cur, where ? "1" : "a:2,S", REG); N[i].d = t; N[i].n = w - t; N[i].mail = 1; }
  settext(mk(where ? D_cur : hh, where ? "a:2,S" : "1", REG), "Subject: wa\n\nyy\n");
  CHECK(run(NULL, NULL, NULL, NULL) == 0, "a message that is none does not stop the indexing");
  r = run("s:wa", NULL, NULL, NULL);
  for (i = 0; i < nn; i++) {
    if (N[i].k == NONE || N[i].k == DIRK || !below(i, "r")) continue;
    if (N[i].k == LINK) { if (!strcmp(N[i].to, where ? "/b/m/cur/a:2,S" : "/b/h/1")) found[0]++; continue; }
    for (j = 0; j + 15 <= N[i].n; j++) if (!memcmp(N[i].d + j, "Subject: wa\n\nyy\n", 15)) break;
    if (j + 15 <= N[i].n) found[1]++;
  }
  CHECK(found[0] == 1, "the other messages are found"); CHECK(found[1] >= 1, "the other messages are found"); CHECK(r == 0, "the exit status says whether anything was found");
  CHECK(run("yy", NULL, NULL, NULL) == 0, "the exit status says whether anything was found");
  COVER("found");
}
#endif

#if defined(MANY)
/* ---- more messages than the first tables hold ---- */
unsigned int hashfn(unsigned char *k, unsigned int length, unsigned int initval) { unsigned h = 0; while (length--) h = h * 31 + *k++; return h; }
static int sumn; static unsigned char sum[3];
#include "md5.h"
void MD5Init(MD5_CTX *c) { sumn = 0; sum[0] = sum[1] = sum[2] = 0; }
void MD5Update(MD5_CTX *c, unsigned const char *p, unsigned int n) { unsigned i; for (i = 0; i < n; i++) sum[sumn++ % 3] ^= p[i]; }
void MD5Final(MD5_CTX *c) { memset(c->digest, 0, 16); c->digest[0] = sum[0]; c->digest[1] = sum[1]; c->digest[2] = sum[2]; c->digest[3] = sumn; c->digest[4] = sumn >> 8; }
static void ended(int code, int gave_up) { check_end(); CHECK(0, "the run does not give up"); }
static int alive[NB + NH + 1], at_[NB + NH + 1]; static unsigned char lt;
#define FROM "From a@b.cd Mon Apr  3 10:00:00 2006\n"
static void box(int spec)
{
  static const char t[] = FROM "Subject: w_\nX: ____\n\ny\n\n"; int L = sizeof t - 1, i, k = 0; char *d = malloc(L * NB + 1);
  for (i = 0; i < NB; i++) if (alive[i]) { char *m = d + L * k++; memcpy(m, t, L); m[47] = i == spec ? lt : 'b'; m[52] = '0' + i / 1000; m[53] = '0' + i / 100 % 10; m[54] = '0' + i / 10 % 10; m[55] = '0' + i % 10; }
  N[F_x].d = d; N[F_x].n = L * k; N[F_x].mail = 1;
}
static void find(int spec, int there)
{
  int i, n = 0, r; char t[40], nm[8]; unsigned char q = sym_u8(); char a[8];
  ASSUME(vor(q == 'a', q == 'c')); strcpy(a, "s:w_"); a[3] = q;
  r = run(a, NULL, NULL, NULL);
  sprintf(nm, "/%d", 1001 + spec - NB); sprintf(t, "X: %04d", spec);
  for (i = 0; i < nn; i++) {
    int j;
    if (N[i].k == NONE || N[i].k == DIRK || !below(i, "r")) continue;
    n++;
    if (N[i].k == LINK) { CHECK(spec >= NB && !strcmp(strrchr(N[i].to, '/'), nm), "only the messages that match are found"); continue; }
    CHECK(spec < NB, "only the messages that match are found");
    for (j = 0; j + 7 <= N[i].n; j++) if (!memcmp(N[i].d + j, t, 7)) break;
    CHECK(j + 7 <= N[i].n, "only the messages that match are found");
  }
  CHECK(n == vand(there, q == lt), "every message that matches is found, once"); CHECK((r == 0) == (n > 0), "the exit status says whether anything was found");
  if (n) COVER("found");
}
void harness(void)
{
  static const int pos[] = { WHERE }; const int np = sizeof pos / sizeof *pos;
  int i, hh, spec = pos[CHOOSE(0, np - 1)], gone;
  loud = CHOOSE(0, 1);
  tree(); hh = mk(D_b, "h", DIRK); mk(hh, ".xmhcache", REG); e_maildir = "m"; e_mh = "h"; e_mbox = "x"; rc_add("mformat=maildir\n");
  lt = 'a';
  for (i = 0; i < NB + NH; i++) {
    alive[i] = 1; if (i < NB) continue;
    char nm[8], *t = strcpy(malloc(16), "Subject: w_\n\n"); sprintf(nm, "%d", 1001 + i - NB); t[10] = i == spec ? lt : 'b';
    /* mk() would look for a free place */
    at_[i] = nn; N[nn].parent = hh; strcpy(N[nn].name, nm); N[nn].k = REG; N[nn].d = t; N[nn].n = 13; N[nn].mail = 1; N[nn++].mtime = 1;
  }
  F_x = mk(D_b, "x", REG); box(spec);
  CHECK(run(NULL, NULL, NULL, NULL) == 0, "the run succeeds");
  find(spec, 1);
  gone = pos[CHOOSE(0, np - 1)]; alive[gone] = 0; if (gone < NB) { box(spec); N[F_x].mtime = 2; } else N[at_[gone]].k = NONE;
  CHECK(run(CHOOSE(0, 1) ? "-p" : NULL, NULL, NULL, NULL) == 0, "the run succeeds");
  find(spec, spec != gone);
}
#endif

#if defined(TWICE)
/* ---- lists that reach a message or a mailbox twice ---- */
unsigned int hashfn(unsigned char *k, unsigned int length, unsigned int initval) { return length * 7; }
static int sumn; static unsigned char sum[3];
#include "md5.h"
void MD5Init(MD5_CTX *c) { sumn = 0; sum[0] = sum[1] = 0; }
void MD5Update(MD5_CTX *c, unsigned const char *p, unsigned int n) { unsigned i; for (i = 0; i < n; i++) sum[sumn++ & 1] ^= p[i]; }
void MD5Final(MD5_CTX *c) { memset(c->digest, 0, 16); c->digest[0] = sum[0]; c->digest[1] = sum[1]; c->digest[2] = sumn; c->digest[3] = sumn >> 8; }
static int before = -1, was_n; static char *was; static int twice, searching;
static void look(void)
{
  int i = node_of("/d", 0), j;
  if (before < 0) { CHECK(i < 0 || N[i].k == NONE, "no index is begun"); return; }
  CHECK(i >= 0 && N[i].n == was_n, "the index stays as it was");
  for (j = 0; j < was_n; j++) CHECK(N[i].d[j] == was[j], "the index stays as it was");
}
static void ended(int code, int gave_up)
{ check_end(); CHECK(code != 0, "giving up is an error"); if (searching) return; CHECK(twice, "a list that reaches nothing twice is no error"); look(); COVER("refused"); }
void harness(void)
{
  static const struct { const char *m, *h, *x; int twice; } L[] = {
    { "m", "h", "x", 0 }, { "m:m", "h", "x", 1 }, { "m*", "h", "x", 0 }, { "m*:m", NULL, "x", 1 }, { "m...", "h", NULL, 0 }, { "m:m...", NULL, NULL, 1 }, { "m", "h:h", "x", 1 }, { NULL, "h*", "x", 0 }, { NULL, "h*:/b/h", NULL, 1 },
    { "m", "h", "x:x", 1 }, { "m", NULL, "x*", 0 }, { NULL, NULL, "x*:x", 1 }, { "m", "h", "/b/x:x", 1 }, { "m", "h", "x:y", 0 }, { "m:n", "h", "x:y:x", 1 }, { "m:n", "h:h2", "*", 0 } };
  int k = CHOOSE(0, (int) (sizeof L / sizeof *L) - 1), i, hh, empty = CHOOSE(0, 3); unsigned char q = sym_u8(); char a[8];
  loud = CHOOSE(0, 1);
  tree(); hh = mk(D_b, "h", DIRK); mk(hh, ".xmhcache", REG); rc_add("mformat=maildir\n");
  if (empty != 1) settext(mk(D_cur, "a:2,S", REG), "Subject: wa\n\nyy\n");
  if (empty != 2) settext(mk(hh, "1", REG), "Subject: wb\n\nyy\n");
  F_x = mk(D_b, "x", REG); settext(F_x, "From a@b.cd Mon Apr  3 10:00:00 2006\nSubject: wc\n\nyy\n"); if (empty == 3) N[F_x].n = 0;
  if (CHOOSE(0, 1)) {
    e_maildir = "m"; e_mbox = "x"; CHECK(run(NULL, NULL, NULL, NULL) == 0, "harness: the first run");
    before = node_of("/d", 0); CHECK(before >= 0, "harness: the first run"); was_n = N[before].n; was = malloc(was_n + 1); for (i = 0; i < was_n; i++) was[i] = N[before].d[i];
  }
  /* (one process runs main() several times here: settings of an earlier run stay) */
  e_maildir = L[k].m ? L[k].m : "gone"; e_mh = L[k].h ? L[k].h : "gone"; e_mbox = L[k].x ? L[k].x : "gone";
  /* an empty folder has no message to reach */
  twice = vand(L[k].twice, !vor(vand(empty == 1, vand(k >= 1, k <= 5)), vand(empty == 2, vand(k >= 6, k <= 8))));
  CHECK(run(NULL, NULL, NULL, NULL) == 0, "the run succeeds");
  CHECK(!twice, "a list that reaches a message twice is refused");
  ASSUME(vand(q >= 'a', q <= 'c')); strcpy(a, "s:w_"); a[3] = q;
  searching = before < 0 && vand(!L[k].m || empty == 1, vand(!L[k].h || empty == 2, !L[k].x)); /* nothing there: no index */
  i = run(a, NULL, NULL, NULL);
  CHECK((i == 0) == vor(vand(q == 'a', L[k].m && empty != 1), vor(vand(q == 'b', L[k].h && empty != 2), vand(q == 'c', L[k].x && empty != 3))), "what the lists reach is found");
  COVER_IF(i == 0, "found");
}
#endif

#if defined(IMAPMIX)
/* ---- mail on a server next to files and a mailbox ---- */
unsigned int hashfn(unsigned char *k, unsigned int length, unsigned int initval) { return length * 7; }
static int sumn; static unsigned char sum[3];
#include "md5.h"
void MD5Init(MD5_CTX *c) { sumn = 0; sum[0] = sum[1] = 0; }
void MD5Update(MD5_CTX *c, unsigned const char *p, unsigned int n) { unsigned i; for (i = 0; i < n; i++) sum[sumn++ & 1] ^= p[i]; }
void MD5Final(MD5_CTX *c) { memset(c->digest, 0, 16); c->digest[0] = sum[0]; c->digest[1] = sum[1]; c->digest[2] = sumn; c->digest[3] = sumn >> 8; }
#define NM 3
static struct { int there, unreadable, indexed; unsigned char let; char path[16]; } M[NM];
static int validity = 5, down; static char conn; static int before = -1, was_n; static char *was;
static void name(int m) { sprintf(M[m].path, "%d:%d:A:b", validity, 7 + 5 * m); }
static unsigned char letter(void) { unsigned char c = sym_u8(); ASSUME(vor(c == 'a', c == 'b')); return c; }
struct imap_ll *imap_start(const char *pipe, const char *server, const char *user, const char *pass)
{ CHECK(pipe && !strcmp(pipe, "p") && !server && user && !strcmp(user, "u") && pass && !strcmp(pass, "s"), "the server is the one that is set"); return down ? NULL : (struct imap_ll *) &conn; }
void build_imap_message_list(const char *f, struct msgpath_array *a, struct globber_array *o, struct imap_ll *c)
{
  int m;
  CHECK((char *) c == &conn, "the connection is used"); CHECK(!strncmp(f, "A", 1), "the folders are the ones that are set");
  for (m = NM - 1; m >= 0; m--) {
    if (!M[m].there) continue;
    if (a->n == a->max) { a->max += 4; a->paths = realloc(a->paths, a->max * sizeof *a->paths); }
    a->paths[a->n].type = MTY_IMAP; a->paths[a->n].src.mpf.path = strdup(M[m].path); a->n++;
  }
}
struct rfc822 *make_rfc822_from_imap(const char *path, struct imap_ll *c)
{
  int m; struct msg_src src; char *t;
  for (m = 0; m < NM; m++) if (M[m].there && !strcmp(path, M[m].path)) break;
  CHECK(m < NM, "only messages that are there are read");
  CHECK((char *) c == &conn, "the connection is used");
  if (M[m].unreadable) { errno = EIO; return NULL; }
  src.type = MS_FILE; src.filename = (char *) path; errno = 0;
  t = strdup("Subject: w_\n\nyy\n"); t[10] = M[m].let;
  struct rfc822 *r = data_to_rfc822(&src, t, 16, NULL); errno = 0; return r;
}
static void ended(int code, int gave_up)
{
  int j, i = node_of("/d", 0);
  check_end(); CHECK(down && code != 0, "the run gives up only when the server cannot be reached, and that is an error");
  if (before < 0) { CHECK(i < 0 || N[i].k == NONE, "no index is begun"); return; }
  CHECK(i >= 0 && N[i].n == was_n, "the index stays as it was");
  for (j = 0; j < was_n; j++) CHECK(N[i].d[j] == was[j], "the index stays as it was");
  COVER("server down");
}
void harness(void)
{
  static const char *fpath[2] = { "/b/m/cur/a:2,S", "/b/m/new/b" };
  int i, j, m, there[2], fn[2], any = 0, n; unsigned char q, fl[2], bl; char a[8], *t;
  loud = CHOOSE(0, 1); outn = 0;
  tree(); rc_add("mformat=raw\nimap=A:b\nimap_pipe=p\nimap_username=u\nimap_password=s\n");
  e_maildir = "m"; e_mbox = "x";
  there[0] = CHOOSE(0, 1); there[1] = 0;
  fl[0] = letter(); fl[1] = 'a'; bl = 'b';
#define FILE_(k) do { there[k] = 1; fn[k] = mk(k ? D_new : D_cur, k ? "b" : "a:2,S", REG); settext(fn[k], "Subject: w_\n\nyy\n"); N[fn[k]].d[10] = fl[k]; } while (0)
  if (there[0]) FILE_(0);
  F_x = mk(D_b, "x", REG); settext(F_x, "From a@b.c Mon Apr  3 10:00:00 2006\nSubject: w_\n\nqq\n"); N[F_x].d[46] = bl;
  for (m = 0; m < NM; m++) { M[m].let = letter(); name(m); M[m].there = 0; }
  n = CHOOSE(0, 2); for (m = 0; m < n; m++) M[m].there = 1;
  if (n && (m = CHOOSE(0, 2)) < n) M[m].unreadable = 1;
  down = CHOOSE(0, 1) && n == 2 && !M[0].unreadable;
  CHECK(run(NULL, NULL, NULL, NULL) == 0, "the run succeeds"); CHECK(!down, "a server that cannot be reached is an error");
  before = node_of("/d", 0); CHECK(before >= 0, "harness: the first run"); was_n = N[before].n; was = malloc(was_n + 1); for (i = 0; i < was_n; i++) was[i] = N[before].d[i];
  switch (CHOOSE(0, 8)) {
    case 0: break;
    case 1: M[0].there = 0; break;
    case 2: M[2].there = 1; break;
    case 3: validity = 50; for (m = 0; m < NM; m++) name(m); break;
    case 4: down = 1; break;
    case 5: M[2].there = M[2].unreadable = 1; M[0].there = 0; break;
    case 6: if (!there[0]) return; N[fn[0]].k = NONE; N[fn[0]].busy = 1; there[0] = 0; M[2].there = 1; break;
    case 7: FILE_(1); break;
    default: FILE_(1); M[0].there = 0; M[2].there = 1; break;
  }
  if (CHOOSE(0, 1)) for (m = 0; m < 2; m++) M[m].unreadable = 0;
  CHECK(run(CHOOSE(0, 1) ? "-p" : NULL, NULL, NULL, NULL) == 0, "the run succeeds"); CHECK(!down, "a server that cannot be reached is an error");
  if (CHOOSE(0, 1)) { for (m = 0; m < NM; m++) M[m].unreadable = 0; CHECK(run(NULL, NULL, NULL, NULL) == 0, "the run succeeds"); }
  q = letter(); strcpy(a, "s:w_"); a[3] = q; outn = 0;
  i = run(a, NULL, NULL, NULL); out[outn] = 0;
  /* the lines shown are those of the messages there */
  t = out; n = 0;
  for (j = 0; j < outn; j++) if (out[j] == '\n') n++;
  for (m = 0; m < NM + 3; m++) {
    int has, k, shown = 0, is_; const char *p = m < NM ? M[m].path : m == NM ? "mbox:/b/x [36," : fpath[m - NM - 1];
    has = m < NM ? M[m].there && !M[m].unreadable ? M[m].let == q : 0 : m == NM ? bl == q : there[m - NM - 1] ? fl[m - NM - 1] == q : 0;
    for (j = 0; j < outn; j++) { if (j && out[j - 1] != '\n') continue; is_ = 1; for (k = 0; p[k]; k++) if (out[j + k] != p[k]) { is_ = 0; break; } if (is_ && (m == NM || out[j + k] == '\n')) shown++; }
    CHECK(shown == !!has, "a search finds exactly the messages that are there and could be read");
    n -= shown; any |= shown;
  }
  CHECK(n == 0, "nothing else is shown"); CHECK((i == 0) == any, "the exit status says whether anything was found");
  COVER_IF(any, "found");
}
#endif
