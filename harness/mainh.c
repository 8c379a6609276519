/* The program from main() on: the lock that keeps runs apart, and what the
 * configuration means.  The parts that do the work are stand-ins. */
#define VH_NO_GLOBALS
#define VH_NO_EXIT
#define VH_NAMES
#define VH_STDIO
#define VH_PROC
#define VH_MAIN
#define VH_STDOUT
#include "vh.h"
#include "vhsys.h"
#undef stat
#undef lstat
#undef unlink
#undef link
#undef fopen
#undef fclose
#undef fprintf
#undef fgets
#undef main
#undef exit
#undef getpid
#undef uname
#undef kill
#undef printf
#undef puts
#undef putchar
#undef putc
#undef fputs
#undef fputc
#undef fwrite
#include "mairix.h"
#include "imapinterface.h"
static void ended(int code);
static void late(void);
void vh_exit(int code) { late(); ended(code); exit(0); }
int vh_printf(const char *f, ...) { return 0; }
int vh_puts(const char *s) { return 0; }
int vh_fprintf(FILE *f, const char *fmt, ...) { return 0; }
static struct passwd pw; 
static struct utsname un;
int vh_uname(struct utsname *u) { memset(u, 0, sizeof *u); strcpy(u->nodename, "n"); return 0; }
pid_t vh_getpid(void) { return 77; }
int vh_kill(pid_t p, int s) { CHECK(0, "no process is signalled"); return -1; }
static int no_user;
struct passwd *vh_getpwuid(uid_t u) { if (no_user) return NULL; pw.pw_name = "u"; pw.pw_dir = "/h"; return &pw; }
/* ---- the configuration file ---- */
static char rc[512]; static int rclen, rcpos;
static char rcf, lckf, tmpf;
static void rc_add(const char *s) { while (*s) rc[rclen++] = *s++; }
static char *rc_gets(char *s, int n)
{ int k = 0; while (k < n - 1 && rcpos < rclen) { s[k] = rc[rcpos++]; if (s[k++] == '\n') break; } if (!k) return NULL; s[k] = 0; return s; }
/* ---- folder code ---- */
struct traverse_methods maildir_traverse_methods, mh_traverse_methods, mbox_traverse_methods;
void glob_and_expand_paths(const char *fb, char **in, int n_in, char ***out, int *n_out, const struct traverse_methods *m, struct globber_array *o) { *n_out = 0; *out = NULL; }
struct msgpath_array *new_msgpath_array(void) { struct msgpath_array *a = malloc(sizeof *a); memset(a, 0, sizeof *a); return a; }
void free_msgpath_array(struct msgpath_array *a) { free(a); }
static struct database the_db;

#if defined(LOCK)
/* ---- another run, which may take and release the lock at any moment ---- */
static int owner, temp, links, steps, forced, armed, sent, began, in_handler; static void (*handler)(int);
enum { NOBODY, ME, OTHER };
static void env(void)
{
  if (in_handler) return;
  if (steps < STEPS) {
    if (owner == NOBODY) { if (sym_bool()) { owner = OTHER; steps++; } }
    else if (owner == OTHER) { if (sym_bool()) { owner = NOBODY; steps++; } }
  }
#ifdef SIGNALS
  if (!sent && handler && sym_bool()) { sent = 1; in_handler = 1; COVER("interrupted"); handler(2); }
#endif
}
static int is(const char *p, const char *q) { return !strcmp(p, q); }
#define LOCKNAME "d.lock"
#define TEMP(p) (!strncmp(p, "d.lock.", 7))
FILE *vh_fopen(const char *p, const char *mode)
{
  env();
  if (is(p, "rc")) { rcpos = 0; return (FILE *) &rcf; }
  if (is(p, LOCKNAME)) { CHECK(mode[0] == 'r', "the lock file is not overwritten"); if (owner == NOBODY) { errno = ENOENT; return NULL; } if (owner == OTHER && CHOOSE(0, 1)) { errno = EACCES; return NULL; } COVER("lock file read"); return (FILE *) &lckf; }
  CHECK(TEMP(p) && mode[0] == 'w', "only the lock and a temporary file beside it are touched");
  if (sym_bool()) { errno = EACCES; return NULL; }
  temp = 1; links = 1; return (FILE *) &tmpf;
}
int vh_fclose(FILE *f) { return 0; }
char *vh_fgets(char *s, int n, FILE *f)
{
  int i, k;
  if (f == (FILE *) &rcf) return rc_gets(s, n);
  k = CHOOSE(0, 3); if (!k) return NULL;
  for (i = 0; i < k - 1; i++) { s[i] = sym_u8(); ASSUME(s[i] != '\n'); }
  s[i] = CHOOSE(0, 1) ? '\n' : 'x'; s[k] = 0;
  return s;
}
int vh_link(const char *a, const char *b)
{
  env();
  CHECK(TEMP(a) && is(b, LOCKNAME) && temp, "the lock is a link to the temporary file");
  if (owner != NOBODY) { errno = EEXIST; return -1; }
  owner = ME; links = 2;
  if (sym_bool()) { errno = EIO; COVER("link made but reported as failed"); return -1; }
  return 0;
}
int vh_unlink(const char *p)
{
  env();
  if (TEMP(p)) { temp = 0; return 0; }
  CHECK(is(p, LOCKNAME), "only the lock and the temporary file are removed");
  CHECK(owner != OTHER || forced, "another run's lock is never removed, unless asked to");
  if (owner == OTHER && forced) forced = 0;
  owner = NOBODY; return 0;
}
int vh_symlink(const char *a, const char *b) { CHECK(0, "no symbolic links"); return -1; }
int vh_stat(const char *p, struct stat *sb)
{
  memset(sb, 0, sizeof *sb);
  if (is(p, "d")) { int k = CHOOSE(0, 2); CHECK(owner == ME, "the index is only looked at under the lock"); if (!k) { errno = ENOENT; return -1; } sb->st_mode = k == 1 ? S_IFREG : S_IFDIR; return 0; }
  CHECK(TEMP(p), "only the temporary file is looked at");
  if (links != 2) env();
  sb->st_nlink = links; sb->st_mode = S_IFREG; return 0;
}
int vh_lstat(const char *p, struct stat *sb) { return vh_stat(p, sb); }
char *vh_getenv(const char *n) { return is(n, "HOME") ? "/h" : NULL; }
void (*vh_signal(int s, void (*h)(int)))(int) { handler = h; return NULL; }
static void ended(int code)
{
  CHECK(owner != ME, "the lock is released when the run ends");
  CHECK(!temp || sent, "no temporary file is left behind");
  COVER_IF(began && !sent, "finished under the lock");
  COVER_IF(!began && owner == OTHER, "kept out");
}
#define USE(w) do { CHECK(owner == ME, w); began = 1; env(); } while (0)
void dump_database(char *fn) { USE("the index is only read under the lock"); }
int search_top(int t, int a, char *d, char *m, char **argv, enum folder_type ft, int v, const char *x1, const char *x2, const char *x3, const char *x4, int s) { USE("the index is only searched under the lock"); return CHOOSE(0, 1); }
struct database *new_database_from_file(char *f, int c) { USE("the index is only read under the lock"); return &the_db; }
static unsigned seen_key; static int fresh, no_file, no_user, no_index, no_conn;
struct database *new_database(unsigned k) { seen_key = k; fresh++; return &the_db; }
void build_message_list(char *fb, char *f, enum folder_type ft, struct msgpath_array *m, struct globber_array *o) { env(); }
void build_mbox_lists(struct database *db, const char *fb, const char *m, struct globber_array *o, int l) { env(); }
void build_imap_message_list(const char *f, struct msgpath_array *m, struct globber_array *o, struct imap_ll *i) { }
struct imap_ll *imap_start(const char *a, const char *b, const char *c, const char *d) { return NULL; }
int update_database(struct database *db, struct msgpath *p, int n, int f, struct imap_ll *i) { env(); return CHOOSE(0, 1); }
int cull_dead_messages(struct database *db, int c) { return CHOOSE(0, 1); }
void write_database(struct database *db, char *f, int c) { USE("the index is only written under the lock"); }
void free_database(struct database *db) { }
void harness(void)
{
  static const char *modes[] = { "word", "-d", "-p", "-v", "-a", "-t" };
  char *argv[8]; int n = 0;
  argv[n++] = "mairix"; argv[n++] = "-f"; argv[n++] = "rc";
  if ((forced = CHOOSE(0, 1))) argv[n++] = "--unlock";
  argv[n++] = (char *) modes[CHOOSE(0, 5)];
  argv[n] = NULL;
  rc_add("base=b\nmbox=x\ndatabase=d\n");
  if (CHOOSE(0, 1)) rc_add("mfolder=m\n");
  owner = CHOOSE(0, 1) ? OTHER : NOBODY;
  n = mx_main(n, argv); late();
  ended(n);
}
static void late(void) { env(); env(); }
#endif
#if defined(RC) || defined(ANYRC) || defined(OPTS) || defined(SETUP)
/* ---- what the settings mean ---- */
static char *seen_maildir, *seen_mh, *seen_mbox, *seen_imap, *seen_base, *seen_db, *seen_mfolder, *seen_user, *seen_pass, *seen_server, *seen_pipe; static int seen_links, seen_ft, seen_sort, seen_check, omits, code = -1, searched, indexed, seen_aug, seen_thr;
static struct globber_array *seen_omit; static char **seen_args;
static int home_set, home_mode;
static unsigned seen_key; static int fresh, no_file, no_index, no_conn;
static char envname[40];
static int is(const char *p, const char *q) { return !strcmp(p, q); }
static char *keep(const char *s) { char *r; if (!s) return NULL; r = malloc(strlen(s) + 1); strcpy(r, s); return r; }
char *vh_getenv(const char *n)
{
  if (is(n, "HOME")) return home_set ? "/hm" : NULL;
  if (envname[0] && is(n, envname)) return "E:v";
  if (is(n, "A")) return "v.a+l=u:e-v";
  if (is(n, "B1")) return "w";
  if (is(n, "_")) return "";
  return NULL;
}
void (*vh_signal(int s, void (*h)(int)))(int) { return NULL; }
FILE *vh_fopen(const char *p, const char *mode)
{
  if (mode[0] == 'w') return (FILE *) &tmpf;
  CHECK(home_mode ? is(p, home_set ? "/hm/.mairixrc" : "/h/.mairixrc") : is(p, "rc"), "settings are read from the file given or from the home directory");
  if (no_file) { errno = ENOENT; return NULL; }
  rcpos = 0; return (FILE *) &rcf;
}
int vh_fclose(FILE *f) { return 0; }
char *vh_fgets(char *s, int n, FILE *f) { return rc_gets(s, n); }
int vh_link(const char *a, const char *b) { return 0; }
static int unlocked;
int vh_unlink(const char *p) { if (is(p, "d.lock")) unlocked++; return 0; }
int vh_stat(const char *p, struct stat *sb) { if (no_index == 1) { errno = ENOENT; return -1; } memset(sb, 0, sizeof *sb); if (no_index == 2) { sb->st_mode = S_IFDIR; return 0; } sb->st_mode = S_IFREG; return 0; }
int vh_lstat(const char *p, struct stat *sb) { return vh_stat(p, sb); }
static void done(int c);
static void late(void) { }
static void ended(int c) { done(c); }
static void dumped_(void);
void dump_database(char *fn) { seen_db = keep(fn); dumped_(); }
static int result_(void);
int search_top(int t, int a, char *d, char *m, char **argv, enum folder_type ft, int v, const char *pipe, const char *server, const char *user, const char *pass, int s)
{ searched++; seen_thr = t; seen_aug = a; seen_db = keep(d); seen_mfolder = keep(m); seen_args = argv; seen_ft = ft; seen_pipe = keep(pipe); seen_server = keep(server); seen_user = keep(user); seen_pass = keep(pass); seen_sort = s; return result_(); }
struct database *new_database_from_file(char *f, int c) { seen_db = keep(f); seen_check = c; return &the_db; }
struct database *new_database(unsigned k) { seen_key = k; fresh++; return &the_db; }
void build_message_list(char *fb, char *f, enum folder_type ft, struct msgpath_array *m, struct globber_array *o)
{ seen_base = keep(fb); if (ft == FT_MAILDIR) seen_maildir = keep(f); else seen_mh = keep(f); seen_omit = o; }
void build_mbox_lists(struct database *db, const char *fb, const char *m, struct globber_array *o, int l) { indexed++; seen_base = keep(fb); seen_mbox = keep(m); seen_links = l; seen_omit = o; }
void build_imap_message_list(const char *f, struct msgpath_array *m, struct globber_array *o, struct imap_ll *i) { seen_imap = keep(f); }
static char conn;
struct imap_ll *imap_start(const char *a, const char *b, const char *c, const char *d) { seen_pipe = keep(a); seen_server = keep(b); seen_user = keep(c); seen_pass = keep(d); return no_conn ? NULL : (struct imap_ll *) &conn; }
static int updated, culled, changed_u, changed_c, wrote, dumped, seen_fast, write_check, cull_check;
int update_database(struct database *db, struct msgpath *p, int n, int f, struct imap_ll *i) { updated++; seen_fast = f; return changed_u; }
int cull_dead_messages(struct database *db, int c) { culled++; cull_check = c; CHECK(updated, "purged after the update"); return changed_c; }
void write_database(struct database *db, char *f, int c) { CHECK(is(f, seen_db), "the index read is the one written"); wrote++; write_check = c; }
void free_database(struct database *db) { }
#endif
#if defined(RC) || defined(ANYRC) || defined(OPTS) || defined(SETUP)
static void dumped_(void) { dumped++; }
#endif
#ifdef ANYRC
static void done(int c) { COVER("handled"); }
void harness(void)
{
  char *argv[] = { "mairix", "-f", "rc", NULL }; int i, n = CHOOSE(0, ANYRC);
  static const char *pre[] = { "", "base=b\ndatabase=d\nmbox=", "mbox=x\nmformat=", "base=${", "maildir=a\nfolders", "mh=a\nmh_folders" };
  rc_add(pre[CHOOSE(0, 5)]);
  for (i = 0; i < n; i++) rc[rclen++] = sym_u8();
  rc_add(CHOOSE(0, 1) ? "\nbase=b\ndatabase=d\nmbox=x\n" : "");
  i = mx_main(3, argv);
  done(i);
}
#endif
#ifdef RC
static char val[2][16], want[64]; static int key, nlines, with_env, search;
static const char *keys[] = { "maildir", "mh", "mbox", "imap", "omit", "base", "database", "mfolder", "imap_server", "imap_pipe", "imap_username", "imap_password", "folders", "mh_folders" };
static const char *spelt[] = { "MailDir", "MH", "mbOX", "IMAP", "oMit", "Base", "DATABASE", "MFOLDER", "Imap_Server", "imap_PIPE", "imap_Username", "imap_passworD", "Folders", "mh_Folders" };
static int w;
static void expand(const char *v)
{
  int i = 0, j; char name[16]; const char *e;
  if (v[0] == '~' && v[1] == '/') { const char *h = home_set ? "/hm" : "/h"; while (*h) want[w++] = *h++; i = 1; }
  while (v[i]) {
    if (v[i] != '$') { want[w++] = v[i++]; continue; }
    j = 0; i++;
    if (v[i] == '{') { i++; while (v[i] && v[i] != '}') name[j++] = v[i++]; if (v[i]) i++; }
    else while (vor(vor(vand(v[i] >= 'a', v[i] <= 'z'), vand(v[i] >= 'A', v[i] <= 'Z')), vor(vand(v[i] >= '0', v[i] <= '9'), v[i] == '_'))) name[j++] = v[i++];
    name[j] = 0; e = vh_getenv(name);
    if (e) while (*e) want[w++] = *e++;
  }
  want[w] = 0;
}
static void same(const char *got)
{
  int i;
  CHECK(got != NULL, "the setting is used");
  for (i = 0; ; i++) { CHECK(got[i] == want[i], "the setting has the value given, with ~ and $ expanded"); if (!want[i]) break; }
}
static void done(int c)
{
  int joined = key <= 4 || key >= 12, i, o;
  /* expected value: list settings add up, of others the last counts */
  if (with_env && key != 3 && key != 4 && (key < 8 || key >= 12)) strcpy(want, "E:v");
  else { w = 0; if (joined || nlines == 1) expand(val[0]); if (nlines == 2) { if (joined) want[w++] = ':'; expand(val[1]); } want[w] = 0; }
  CHECK(c == 0, "the run succeeds");
  CHECK(!wrote, "nothing is written when nothing changed");
  switch (key) {
    case 0: case 12: same(seen_maildir); break;
    case 1: case 13: same(seen_mh); break;
    case 2: same(seen_mbox); break;
    case 3: same(seen_imap); break;
    case 4: CHECK(seen_omit != NULL, "the setting is used"); if (nlines == 2) { CHECK(is_globber_array_match(seen_omit, "p"), "patterns add up"); } break;
    case 5: same(seen_base); break;
    case 6: same(seen_db); break;
    case 7: i = want[0] == '/' || (want[0] == '.' && want[1] == '/'); if (i) same(seen_mfolder); else { CHECK(seen_mfolder && seen_mfolder[0] == 'b' && seen_mfolder[1] == '/', "the result folder is relative to the base"); same(seen_mfolder + 2); } break;
    case 8: same(seen_server); break;
    case 9: same(seen_pipe); break;
    case 10: same(seen_user); break;
    default: same(seen_pass); break;
  }
  if (key != 6) CHECK(is(seen_db, "d"), "other settings keep their value");
  if (!search && key != 5) CHECK(is(seen_base, "b"), "other settings keep their value");
  if (!search && key != 2) CHECK(is(seen_mbox, "x"), "other settings keep their value");
  if (search && key != 7) CHECK(is(seen_mfolder, "b/m"), "other settings keep their value");
  if (search) CHECK(seen_ft == FT_MH && seen_sort == 1, "keywords count in any case");
  else CHECK(seen_links == 1 && seen_check == 0, "keywords count in any case");
  COVER_IF(w > 6, "expanded"); COVER_IF(nlines == 2, "two lines");
}
static const char *lead[] = { "", " \t" };
void harness(void)
{
  static const char *over[] = { "MAIRIX_MAILDIR_FOLDERS", "MAIRIX_MH_FOLDERS", "MAIRIX_MBOXEN", "", "", "MAIRIX_FOLDER_BASE", "MAIRIX_DATABASE", "MAIRIX_MFOLDER", "", "", "", "", "MAIRIX_MAILDIR_FOLDERS", "MAIRIX_MH_FOLDERS" };
  static const char *beg[] = { "", "~/", "$A", "${A}", "x$B1", "${B1" };
  char *argv[6]; int n = 0, i, k, m;
  key = CHOOSE(KLO, KHI); nlines = CHOOSE(1, 2); home_set = key == 0 ? CHOOSE(0, 1) : 1; with_env = CHOOSE(0, 1);
  home_mode = key == 1; search = key == 7;
  if (with_env) strcpy(envname, over[key]);
  if (key != 5) rc_add("base=b\n");
  rc_add("# base=z\n\nmformat=Mh\n");
  if (key != 6) rc_add(" database=d\n");
  if (key != 2) rc_add("mbox=x\n");
  if (key != 7) rc_add("mfolder=m\n");
  if (key != 8 && key != 9) rc_add("imap_server=s\n");
  if (key == 8 || key >= 9) rc_add("imap=f\n");
  for (k = 0; k < nlines; k++) {
    int dirty = k == nlines - 1;
    m = 0;
    if (dirty) { const char *b = beg[CHOOSE(0, 5)]; while (*b) val[k][m++] = *b++; n = CHOOSE(0, N); }
    else { val[k][m++] = 'p'; n = 0; }
    for (i = 0; i < n; i++) {
      char c = sym_u8();
      ASSUME(vand(vand(c != 0, c != '\n'), vand(c != '#', vand(c != '!', vand(c != ';', c != '%')))));
      val[k][m++] = c;
    }
    if (dirty && !m) val[k][m++] = 'q';
    val[k][m] = 0;
    rc_add(lead[dirty ? CHOOSE(0, 1) : 0]); rc_add(k ? spelt[key] : keys[key]); rc_add("=");
    for (i = 0; i < m; i++) rc[rclen++] = val[k][i];
    if (dirty && n < N && (i = CHOOSE(0, 4))) { rc[rclen++] = "#!;%"[i - 1]; rc_add("zz"); COVER("comment behind a value"); }
    rc_add("\n");
  }
  rc_add("Nochecks\nFollow_mbox_symlinks\nother=1\nSORT=DATE+");
  if (key == 4) ASSUME(vand(val[nlines-1][0] != '[', 1));
  n = 0; argv[n++] = "mairix"; if (!home_mode) { argv[n++] = "-f"; argv[n++] = "rc"; } if (search) argv[n++] = "w"; argv[n] = NULL;
  i = mx_main(n, argv);
  done(i);
}
#endif
#ifndef OPTS
#if defined(RC) || defined(ANYRC) || defined(SETUP)
static int result_(void) { return 0; }
#endif
#endif
#ifdef OPTS
/* ---- what the options mean, in any order ---- */
extern int do_hardlinks, verbose;
static const char *names[][2] = { {"-t", "--threads"}, {"-a", "--augment"}, {"-r", "--raw-output"}, {"-x", "--excerpt-output"}, {"-H", "--force-hardlinks"}, {"-Q", "--no-integrity-checks"}, {"-F", "--fast-index"}, {"-p", "--purge"}, {"-v", "--verbose"}, {"-d", "--dump"}, {"-h", "--help"}, {"-V", "--version"}, {"-o", "--mfolder"}, {"--unlock", "--unlock"}, {"-z", "--no-such"} };
enum { T_, A_, R_, X_, H_, Q_, F_, P_, V_, D_, HELP_, VERS_, O_, UNL_, BAD_, NOPT };
static int on[NOPT], nargs, dashes, in_env, other, in_rc;
static char **args;
static void done(int c)
{
  int search = on[T_] || on[A_] || nargs, acts = dumped + searched + updated;
  const char *m = on[O_] ? "b/o1" : in_env ? "b/E:v" : in_rc ? "b/m" : "b/";
  if (on[BAD_]) { CHECK(c != 0 || on[VERS_], "unknown options are an error"); CHECK(!acts, "and nothing is done"); COVER("refused"); return; }
  if (on[HELP_] || on[VERS_]) { CHECK(c == 0 && !acts && !wrote, "help and version do nothing else"); COVER("help"); return; }
  CHECK(verbose == on[V_] && do_hardlinks == on[H_], "the option counts");
  if (on[D_]) { CHECK(c == 0 && acts == 1 && dumped && !wrote, "the index is dumped, and nothing else"); COVER("dump"); return; }
  CHECK(unlocked == 1 + on[UNL_], "another run's lock is removed if asked to");
  if (search) {
    if (!on[O_] && !in_env && !in_rc && !on[R_] && !on[X_]) { CHECK(c != 0 && !acts, "a search needs somewhere to put its results"); COVER("nowhere"); return; }
    CHECK(c == other && acts == 1 && searched == 1 && !wrote && !culled, "a search is done, and nothing else");
    CHECK(seen_thr == on[T_] && seen_aug == on[A_], "the option counts");
    CHECK(is(seen_db, "d"), "the index of the settings is searched");
    if (!on[R_] || !on[X_]) CHECK(seen_ft == (on[R_] ? FT_RAW : on[X_] ? FT_EXCERPT : FT_MH), "the output is of the kind asked for");
    if (!on[R_] && !on[X_]) CHECK(is(seen_mfolder, m), "the results go where asked");
    CHECK(seen_args == args, "all arguments after the options are the expression");
    COVER("search");
  } else {
    CHECK(c == 0 && updated == 1 && acts == 1, "without an expression the index is updated");
    CHECK(culled == on[P_], "purged if asked to");
    CHECK(seen_check == !on[Q_] && (!culled || cull_check == !on[Q_]) && (!wrote || write_check == !on[Q_]) && seen_fast == on[F_], "the option counts");
    CHECK(wrote == (changed_u || (on[P_] && changed_c)), "the index is written exactly when something changed");
    COVER("indexed");
  }
}
static int result_(void) { return other; }
void harness(void)
{
  char *argv[12]; int n = 0, k, i, o;
  argv[n++] = "mairix"; argv[n++] = "-f"; argv[n++] = "rc";
  k = CHOOSE(0, OPTS);
  for (i = 0; i < k; i++) {
    o = CHOOSE(0, NOPT - 1);
    on[o] = 1; argv[n++] = (char *) names[o][CHOOSE(0, 1)];
    if (o == O_) argv[n++] = "o1";
  }
  if (CHOOSE(0, 1)) argv[n++] = "--";
  args = argv + n;
  nargs = CHOOSE(0, 2);
  for (i = 0; i < nargs; i++) argv[n++] = !i && args[-1][0] == '-' && args[-1][1] == '-' && !args[-1][2] ? "-t" : i ? "-a" : "w";
  argv[n] = NULL;
  if ((in_env = CHOOSE(0, 1))) strcpy(envname, "MAIRIX_MFOLDER");
  in_rc = CHOOSE(0, 1);
  other = CHOOSE(0, 1);
  changed_u = CHOOSE(0, 1); changed_c = CHOOSE(0, 1);
  rc_add("base=b\ndatabase=d\nmformat=mh\nmbox=x\n"); if (in_rc) rc_add("mfolder=m\n");
  home_set = 1;
  i = mx_main(n, argv);
  done(i);
}
#endif

#ifdef SETUP
/* ---- what a run needs, and what it does without ---- */
static int search, has_base, has_db, lists, imap_, mf, fmt, want_fail; static unsigned hk;
static const char *mfs[] = { NULL, "m", "/m", "./m", "m/n" };
static const char *fmts[] = { NULL, "mh", "MAILDIR", "mbox", "imap", "raw", "Excerpt", "weird" };
static const int fts[] = { FT_MAILDIR, FT_MH, FT_MAILDIR, FT_MBOX, FT_IMAP, FT_RAW, FT_EXCERPT, FT_MAILDIR };
static void done(int c)
{
  int acts = dumped + searched + updated + wrote + fresh, ft = fts[fmt];
  if (want_fail) { CHECK(c != 0, "a run that lacks what it needs says so"); CHECK(!acts && !culled, "and reads or changes no index"); COVER("refused"); return; }
  CHECK(c == 0, "the run succeeds");
  if (!fresh) CHECK(seen_db && is(seen_db, "d"), "the index of the settings is used");
  if (search) {
    CHECK(searched == 1 && acts == 1, "a search is done, and nothing else");
    CHECK(seen_ft == ft, "the results are of the kind set");
    if (ft != FT_RAW && ft != FT_EXCERPT) {
      const char *w = mfs[mf];
      if (ft == FT_IMAP || w[0] == '/' || w[0] == '.') CHECK(is(seen_mfolder, w), "a path of its own stays as it is");
      else CHECK(seen_mfolder[0] == 'b' && seen_mfolder[1] == '/' && is(seen_mfolder + 2, w), "the result folder is relative to the base");
    }
    CHECK(!seen_pipe == !(imap_ & 1) && !seen_server == !(imap_ & 2), "the server is the one set");
    COVER("search");
  } else {
    CHECK(updated == 1 && acts == 1 + fresh, "the index is updated");
    CHECK(fresh == (no_index == 1), "a new index is begun exactly when there is none");
    if (fresh) CHECK(seen_key == hk, "the key for a new index is the one given");
    CHECK((seen_maildir != NULL) == (lists == 1 || lists == 5) && (seen_mh != NULL) == (lists == 2) && (lists == 3 || lists == 6) == (seen_mbox != NULL) && (lists == 4 || (imap_ && lists >= 5)) == (seen_imap != NULL), "what is set is indexed");
    if (lists == 4 || (imap_ && lists >= 5)) CHECK(!seen_pipe == !(imap_ & 1) && !seen_server == !(imap_ & 2), "the server is the one set");
    COVER("indexed");
  }
}
void harness(void)
{
  char *argv[12]; int n = 0, i, part = CHOOSE(0, 3);
  has_base = has_db = 1; lists = 3; home_set = 1; mf = 1; fmt = 1;
  argv[n++] = "mairix";
  if (part == 0) { /* where the settings are */
    static const char *last[] = { "-f", "-o", "--rcfile", "--mfolder", "--force-hash-key-new-database" };
    home_set = CHOOSE(0, 1); no_user = CHOOSE(0, 1); no_file = CHOOSE(0, 1);
    home_mode = CHOOSE(0, 1); search = CHOOSE(0, 1);
    if (!home_mode) { argv[n++] = "-f"; argv[n++] = "rc"; }
    if ((i = CHOOSE(0, 5))) { argv[n++] = (char *) last[i - 1]; want_fail = 1; }
    else if (search) argv[n++] = "w";
    if (no_file) want_fail = 1;
    if (no_user) want_fail = 1; /* the lock names the user */
    has_base = CHOOSE(0, 1); has_db = CHOOSE(0, 1);
    if (!has_base || !has_db) want_fail = 1;
  } else if (part == 1) { /* results */
    search = 1; fmt = CHOOSE(0, 7); mf = CHOOSE(0, 4); imap_ = CHOOSE(0, 2); no_index = CHOOSE(0, 2);
    if (!mf && fts[fmt] != FT_RAW && fts[fmt] != FT_EXCERPT) want_fail = 1;
    if (no_index) want_fail = 1;
    argv[n++] = "-f"; argv[n++] = "rc"; argv[n++] = "w";
  } else if (part == 2) { /* indexing */
    lists = CHOOSE(0, 6); imap_ = CHOOSE(0, 3); no_index = CHOOSE(0, 2); no_conn = CHOOSE(0, 1);
    argv[n++] = "-f"; argv[n++] = "rc";
    if (imap_ == 3 || !lists || no_index == 2 || (lists == 4 && !imap_) || (no_conn && lists >= 4 && imap_)) want_fail = 1;
  } else { /* the key of a new index */
    char *k = malloc(4); k[0] = sym_u8(); k[1] = sym_u8(); k[2] = 0;
    no_index = CHOOSE(0, 1);
    ASSUME(vand(vand(k[0] >= '0', k[0] <= '9'), vor(vand(k[1] >= '0', k[1] <= '9'), !k[1])));
    hk = k[0] - '0'; if (k[1]) hk = hk * 10 + k[1] - '0';
    argv[n++] = "-f"; argv[n++] = "rc"; argv[n++] = "--force-hash-key-new-database"; argv[n++] = k;
    if (CHOOSE(0, 1)) { k[0] = "x ?-"[CHOOSE(0, 2)]; k[1] = 0; want_fail = 1; }
  }
  if (part != 3) hk = CREATE_RANDOM_DATABASE_HASH;
  argv[n] = NULL;
  if (has_base) rc_add("base=b\n");
  if (has_db) rc_add("database=d\n");
  if (lists == 1 || lists == 5) rc_add("maildir=m\n"); if (lists == 2) rc_add("mh=h\n"); if (lists == 3 || lists == 6) rc_add("mbox=x\n"); if (lists >= 4) rc_add("imap=f\n");
  if (imap_ & 1) rc_add("imap_pipe=p\n"); if (imap_ & 2) rc_add("imap_server=s\n");
  if (mf) { rc_add("mfolder="); rc_add(mfs[mf]); rc_add("\n"); }
  if (fmt) { rc_add("mformat="); rc_add(fmts[fmt]); rc_add("\n"); }
  i = mx_main(n, argv);
  done(i);
}
#endif
