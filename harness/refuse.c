/* Results are never put into an indexed folder: main() with the real folder
 * code, over a small file system in memory whose device and inode numbers are
 * arbitrary (distinct for distinct files). */
#define VH_NO_GLOBALS
#define VH_NO_EXIT
#define VH_NAMES
#define VH_STDIO
#define VH_PROC
#define VH_MAIN
#define VH_STDOUT
#include "vh.h"
#include "vhsys.h"
#undef stat
#undef lstat
#undef unlink
#undef link
#undef opendir
#undef readdir
#undef closedir
#undef fopen
#undef fclose
#undef fprintf
#undef fgets
#undef main
#undef exit
#undef getpid
#undef uname
#undef kill
#undef printf
#undef puts
#undef fputs
#undef fputc
#undef fwrite
#include "mairix.h"
#include "imapinterface.h"
static void done(int code);
void vh_exit(int code) { done(code); exit(0); }
int vh_printf(const char *f, ...) { return 0; }
int vh_puts(const char *s) { return 0; }
int vh_fprintf(FILE *f, const char *fmt, ...) { return 0; }
static struct passwd pw;
int vh_uname(struct utsname *u) { memset(u, 0, sizeof *u); strcpy(u->nodename, "n"); return 0; }
pid_t vh_getpid(void) { return 77; }
struct passwd *vh_getpwuid(uid_t u) { pw.pw_name = "u"; pw.pw_dir = "/h"; return &pw; }
char *vh_getenv(const char *n) { return !strcmp(n, "HOME") ? "/h" : NULL; }
void (*vh_signal(int s, void (*h)(int)))(int) { return NULL; }
static char rc[256]; static int rclen, rcpos; static char rcf, tmpf;
static void rc_add(const char *s) { while (*s) rc[rclen++] = *s++; }
FILE *vh_fopen(const char *p, const char *mode) { return mode[0] == 'w' ? (FILE *) &tmpf : (FILE *) &rcf; }
int vh_fclose(FILE *f) { return 0; }
char *vh_fgets(char *s, int n, FILE *f) { int k = 0; while (k < n - 1 && rcpos < rclen) { s[k] = rc[rcpos++]; if (s[k++] == '\n') break; } if (!k) return NULL; s[k] = 0; return s; }
int vh_link(const char *a, const char *b) { return 0; }
int vh_unlink(const char *p) { CHECK(!strncmp(p, "/d.lock", 7), "nothing is removed"); return 0; }
/* ---- the file system ---- */
enum kind { NONE, REG, DIRK, LINK };
static struct node { int parent; char name[12]; enum kind k; int to; unsigned char dev, ino; } N[24];
static int nn;
#define ROOT (-2)
static int mk(int parent, const char *name, enum kind k) { int i; strcpy(N[nn].name, name); N[nn].parent = parent; N[nn].k = k; N[nn].dev = sym_u8(); N[nn].ino = sym_u8(); for (i = 0; i < nn; i++) ASSUME(!vand(N[i].dev == N[nn].dev, N[i].ino == N[nn].ino)); return nn++; }
static int child(int d, const char *p, int n)
{ int i, j; for (i = 0; i < nn; i++) { if (N[i].parent != d) continue; for (j = 0; j < n; j++) if (N[i].name[j] != p[j]) break; if (j == n && !N[i].name[n]) return i; } return -1; }
static int walk(const char *p, int follow)
{
  int at = ROOT, n;
  if (!*p) return -1;
  while (*p) {
    if (*p == '/') { p++; if (at >= 0 && N[at].k == LINK) at = N[at].to; if (at >= 0 && N[at].k != DIRK) return -1; continue; }
    for (n = 0; p[n] && p[n] != '/'; n++) ;
    if (n == 1 && p[0] == '.') { p += n; continue; }
    if (n == 2 && p[0] == '.' && p[1] == '.') { p += n; if (at >= 0) at = N[at].parent; continue; }
    if (at >= 0 && N[at].k == LINK) at = N[at].to;
    if (at >= 0 && N[at].k != DIRK) return -1;
    at = child(at, p, n);
    if (at == -1) return -1;
    p += n;
  }
  if (follow && at >= 0 && N[at].k == LINK) at = N[at].to;
  return at;
}
static int st(const char *p, struct stat *sb, int follow)
{
  int i = walk(p, follow);
  memset(sb, 0, sizeof *sb);
  if (!strncmp(p, "/d", 2) && (p[2] == 0 || p[2] == '.')) { sb->st_mode = S_IFREG; sb->st_nlink = 2; return 0; }
  if (i == -1) { errno = ENOENT; return -1; }
  if (i == ROOT) { sb->st_mode = S_IFDIR; sb->st_dev = 300; sb->st_ino = 300; return 0; }
  sb->st_mode = N[i].k == REG ? S_IFREG : N[i].k == DIRK ? S_IFDIR : S_IFLNK;
  sb->st_dev = N[i].dev; sb->st_ino = N[i].ino;
  return 0;
}
int vh_stat(const char *p, struct stat *sb) { return st(p, sb, 1); }
int vh_lstat(const char *p, struct stat *sb) { return st(p, sb, 0); }
static struct dh { int node, pos, open; struct dirent de; } dh[8];
DIR *vh_opendir(const char *p)
{
  int i = walk(p, 1), k;
  if (i == -1 || (i != ROOT && N[i].k != DIRK)) { errno = ENOENT; return NULL; }
  for (k = 0; k < 8 && dh[k].open; k++) ;
  CHECK(k < 8, "directories are closed after use");
  dh[k].node = i; dh[k].pos = -2; dh[k].open = 1; return (DIR *) &dh[k];
}
struct dirent *vh_readdir(DIR *d)
{
  struct dh *h = (struct dh *) d;
  if (h->pos == -2) { h->pos++; strcpy(h->de.d_name, ".."); return &h->de; }
  if (h->pos == -1) { h->pos++; strcpy(h->de.d_name, "."); return &h->de; }
  while (h->pos < nn) { int i = h->pos++; if (N[i].parent == h->node) { strcpy(h->de.d_name, N[i].name); return &h->de; } }
  return NULL;
}
int vh_closedir(DIR *d) { ((struct dh *) d)->open = 0; return 0; }
/* ---- the rest of the program ---- */
struct database *new_database_from_file(char *f, int c) { CHECK(0, "no indexing"); return NULL; }
void create_ro_mapping(const char *fn, unsigned char **data, int *len, enum ro_map_compressed_behaviour cb) { CHECK(0, "no mail is read"); }
static int searched, indexed[24]; static char target[32];
static int B, MD, SUB, MHF, BOX, BOX2, RES_, OTHER, LNK, LBOX;
int search_top(int t, int a, char *d, char *m, char **argv, enum folder_type ft, int v, const char *x1, const char *x2, const char *x3, const char *x4, int s)
{ searched++; strcpy(target, m); return 0; }
static int fmt;
static const char *dest[] = { "md", "/b/md", "./b/md", "md/", "md/sub", "lnk", "lnk/sub", "box", "../b/box", "mhf", "mhf/.", "res", "other", "none", "box2", "lbox", "m" };
static int chosen;
static void done(int code)
{
  char p[32]; int i;
  if (dest[chosen][0] == '/' || dest[chosen][0] == '.' && dest[chosen][1] == '/') strcpy(p, dest[chosen]); else { strcpy(p, "/b/"); strcat(p, dest[chosen]); }
  i = walk(p, 1);
  if (i >= 0 && indexed[i]) { CHECK(!searched && code != 0, "results are never put into an indexed folder"); COVER("refused"); }
  else { CHECK(searched == 1 && code == 0, "any other folder can take the results"); CHECK(!strcmp(target, p), "the results go where asked"); COVER("accepted"); }
}
void harness(void)
{
  char *argv[] = { "mairix", "-f", "rc", "-o", "", "w", NULL }; int i, md, mh, mb, om;
  static const char *fmts[] = { "maildir", "mh", "mbox" };
  B = mk(ROOT, "b", DIRK);
  MD = mk(B, "md", DIRK); mk(MD, "cur", DIRK); mk(MD, "new", DIRK); mk(MD, "tmp", DIRK);
  SUB = mk(MD, "sub", DIRK); mk(SUB, "cur", DIRK); mk(SUB, "new", DIRK); mk(SUB, "tmp", DIRK);
  MHF = mk(B, "mhf", DIRK); mk(MHF, ".xmhcache", REG); mk(MHF, "1", REG);
  BOX = mk(B, "box", REG); BOX2 = mk(B, "box2", REG);
  RES_ = mk(B, "res", DIRK); OTHER = mk(B, "other", DIRK);
  LNK = mk(B, "lnk", LINK); N[LNK].to = MD;
  LBOX = mk(B, "lbox", LINK); N[LBOX].to = BOX;
  md = CHOOSE(0, 3); mh = CHOOSE(0, 1); mb = CHOOSE(0, 2); om = CHOOSE(0, 2); chosen = CHOOSE(0, 16); fmt = CHOOSE(0, 2);
  if (!md && !mh && !mb) return;
  rc_add("base=/b\ndatabase=/d\nmformat="); rc_add(fmts[fmt]); rc_add("\n");
  if (md) rc_add(md == 1 ? "maildir=md\n" : md == 2 ? "maildir=m*\n" : "maildir=md...\n");
  if (mh) rc_add("mh=mhf\n");
  if (mb) rc_add(mb == 1 ? "mbox=box\n" : "mbox=b*\n");
  if (om) rc_add(om == 1 ? "omit=md\n" : "omit=box\n");
  indexed[MD] = md && om != 1; indexed[SUB] = md == 3; indexed[MHF] = mh;
  if (md == 3 && om == 1) return; /* whether folders below an omitted one count is left open */
  indexed[BOX] = mb && om != 2; indexed[BOX2] = mb == 2;
  argv[4] = (char *) dest[chosen];
  i = mx_main(6, argv);
  done(i);
}
