/* Mail on an IMAP server: the real client against a model of a server. */
#define VH_FILES
#define VH_NET
#define VH_TIME
#include "vh.h"
#include "vhsys.h"
#undef open
#undef close
#undef fstat
#undef ftruncate
#undef lseek
#undef read
#undef write
#undef mmap
#undef munmap
#undef fsync
#undef poll
#undef pipe
#undef fork
#undef time
#undef fcntl
#undef sleep
#undef connect
#undef socket
#undef kill
#undef _exit
#undef getaddrinfo
#undef fputs
#undef fputc
#undef fwrite
#undef fprintf
#include <stdarg.h>
#include <openssl/ssl.h>
#include "mairix.h"
#include "imapinterface.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef LEN
#define LEN 2
#endif
enum { LISTING, BYTES, SENDING, ANYTHING, DELIVERY, SECURE, REFUSALS };
/* ---- the mail on the server ---- */
#define MAXM 4
struct msg { long uid; int deleted, seen, answered, flagged, n; unsigned char t[8]; };
static struct mbx { char name[4]; int namelen, exists, validity, n; struct msg m[MAXM]; } B[3];
static char user[8], pass[8]; static int userlen, passlen;
static int sel = -1, selrw, selvalidity, logged, tried;
/* ---- the conversation ---- */
static unsigned char in[256]; static int inn;
static unsigned char out[700]; static int outn, outp;
static int greeted, eof, commands;
static int cut = -1, cutcmd = -1, shortwrite = 0, again = 0; /* how the bytes come in pieces */
static int faultat = -1, ncalls, faultkind; /* the server goes away */
static int noise, uidlast, quoted, secure, offered, injected, trusted, handshakes;
static int anyplace = -1, anyn; static unsigned char anyb[32];
static int greet, lacking, loginans, refuseat = -1, refusekind, asked_for, refused; /* what the server refuses */
static int told;
static void reply(int c) { CHECK(outn < 700, "harness: reply fits"); out[outn++] = c; }
static void say(const char *s) { while (*s) reply(*s++); }
static void num(long v) { if (v > 9) num(v / 10); reply('0' + v % 10); }
static void sayany(int place) { int i; if (place != anyplace) return; anyplace = -1; for (i = 0; i < anyn; i++) reply(anyb[i]); }
/* what a command consists of, by RFC 3501 and LITERAL+ */
enum { ATOM = 1, STR, LPAR, RPAR };
static struct { int type, at, n; } tk[16]; static int ntk;
static int atomchar(int c) { return c > 32 && c < 127 && c != '(' && c != ')' && c != '{' && c != '"'; }
static unsigned char val[64]; static int nval;
static void parse(void)
{
  int p = 0, n, i;
  ntk = 0; nval = 0;
  for (;;) {
    CHECK(p + 1 < inn, "a command is complete");
    CHECK(ntk < 16, "harness: command fits");
    tk[ntk].at = nval;
    if (in[p] == '(') { tk[ntk].type = LPAR; tk[ntk++].n = 0; p++; continue; }
    if (in[p] == ')') { tk[ntk].type = RPAR; tk[ntk++].n = 0; p++; }
    else if (in[p] == '"') {
      for (p++; p < inn && in[p] != '"'; p++) {
        if (in[p] == '\\') { p++; CHECK(p < inn && (in[p] == '\\' || in[p] == '"'), "in a quoted string a backslash is escaped"); }
        CHECK(in[p] != 0 && in[p] < 128 && in[p] != '\r' && in[p] != '\n', "a quoted string has no other bytes");
        val[nval++] = in[p];
      }
      CHECK(p < inn, "a quoted string is ended"); p++;
      tk[ntk].type = STR; tk[ntk].n = nval - tk[ntk].at; ntk++;
    } else if (in[p] == '{') {
      for (n = 0, p++; p < inn && in[p] >= '0' && in[p] <= '9'; p++) n = n * 10 + in[p] - '0';
      CHECK(p + 3 < inn && in[p] == '+' && in[p + 1] == '}' && in[p + 2] == '\r' && in[p + 3] == '\n', "a literal is announced"); p += 4;
      CHECK(p + n <= inn, "a literal is as long as announced");
      for (i = 0; i < n; i++) val[nval++] = in[p++];
      tk[ntk].type = STR; tk[ntk].n = n; ntk++;
    } else {
      while (p < inn && atomchar(in[p])) val[nval++] = in[p++];
      tk[ntk].type = ATOM; tk[ntk].n = nval - tk[ntk].at; CHECK(tk[ntk].n > 0, "a word is not empty"); ntk++;
    }
    CHECK(p < inn, "a command is ended");
    if (in[p] == ' ') { p++; continue; }
    if (in[p] == ')') continue;
    CHECK(p + 2 <= inn && in[p] == '\r' && in[p + 1] == '\n', "a command is ended by its line end");
    if (MODE != ANYTHING) CHECK(p + 2 == inn, "one command at a time");
    for (i = p + 2; i < inn; i++) in[i - p - 2] = in[i];
    inn -= p + 2;
    return;
  }
}
static int is(int i, const char *s)
{ int j, n = strlen(s); if (i >= ntk || tk[i].type != ATOM || tk[i].n != n) return 0; for (j = 0; j < n; j++) { int c = val[tk[i].at + j]; if (c >= 'a' && c <= 'z') c -= 32; if (c != s[j]) return 0; } return 1; }
static int same(int i, const char *s, int n) { int j; if (i >= ntk || tk[i].n != n) return 0; for (j = 0; j < n; j++) if (val[tk[i].at + j] != (unsigned char) s[j]) return 0; return 1; }
static int box(int i) { int b; CHECK(i < ntk && (tk[i].type == STR || tk[i].type == ATOM), "a folder is named"); for (b = 0; b < 3; b++) if (same(i, B[b].name, B[b].namelen)) return b; return -1; }
static long numat(int i) { int j; long v = 0; if (i >= ntk || tk[i].type != ATOM || tk[i].n < 1) return -1; for (j = 0; j < tk[i].n; j++) { int c = val[tk[i].at + j]; if (c < '0' || c > '9') return -1; v = v * 10 + c - '0'; } return v; }
static void tag(const char *s) { int j; for (j = 0; j < tk[0].n; j++) reply(val[tk[0].at + j]); say(s); say("\r\n"); }
static void aside(void)
{
  switch (noise) {
  case 1: say("* 9 EXISTS\r\n"); break;
  case 2: say("* 1 FETCH (FLAGS (\\Seen))\r\n"); break;
  case 3: say("* OK still here (really)\r\n"); break;
  case 4: say("* 1 EXPUNGE\r\n* 8 EXISTS\r\n* 0 RECENT\r\n"); break;
  case 5: say("* SEARCH\r\n"); break;
  case 6: say("* FLAGS (\\Answered \\Flagged a-rather-long-keyword-with-more-than-fifty-characters-in-it)\r\n"); break;
  case 7: say("* 1 FETCH (FLAGS (\\Deleted) UID 999)\r\n"); break;
  case 8: say("* 1 FETCH\r\n* OK\r\n* LIST () \"/\" \"a \\\"folder\\\" (\"\r\n"); break;
  }
}
static void flags(struct msg *m) { const char *sp = ""; reply('('); if (m->seen) { say("\\Seen"); sp = " "; } if (m->deleted) { say(sp); say("\\Deleted"); } reply(')'); }
static void text(struct msg *m)
{
  int j;
  if (quoted) {
    reply('"');
    for (j = 0; j < m->n; j++) { int c = m->t[j]; if (c == '"' || c == '\\') reply('\\'); reply(c); }
    reply('"');
  } else { reply('{'); num(m->n); say("}\r\n"); for (j = 0; j < m->n; j++) reply(m->t[j]); }
}
static void fetched(struct msg *m, int seq, int body)
{
  say("* "); num(seq); say(" FETCH ("); sayany(4);
  if (!uidlast) { say("UID "); num(m->uid); reply(' '); }
  if (body) { say("BODY[] "); sayany(5); text(m); } else { say("FLAGS "); flags(m); }
  if (uidlast) { say(" UID "); num(m->uid); }
  say(")\r\n");
}
static void caps(void) { if (lacking != 1) say(" LITERAL+"); if (lacking != 2) say(" AUTH=PLAIN"); }
static void greeting(void)
{
  switch (greet) {
    case 0: say("* OK hello\r\n"); break;
    case 1: say("* OK [CAPABILITY IMAP4rev1"); caps(); say("] hello\r\n"); break;
    case 2: say("* PREAUTH hello\r\n"); logged = 1; break;
    case 3: say("* PREAUTH [CAPABILITY IMAP4rev1"); caps(); say("] hello\r\n"); logged = 1; break;
    case 4: say("* BYE too busy\r\n"); break;
    case 5: say("* NO way\r\n"); break;
    default: say("+ what\r\n"); break;
  }
}
static void serve(void)
{
  int b, i, j; long uid;
  parse(); commands++;
  CHECK(tk[0].type == ATOM, "a command has a tag");
  sayany(1);
#if MODE == 6
  if (is(1, "CAPABILITY")) { if (lacking < 3) { say("* CAPABILITY IMAP4rev1"); caps(); say("\r\n"); } tag(lacking == 4 ? " BAD what" : " OK done"); return; }
  if (is(1, "LOGIN")) {
    tried++; CHECK(greet < 2, "no login is made where there is one");
    CHECK(!lacking, "no password is sent to a server that does not know this login");
    CHECK(same(2, user, userlen) && same(3, pass, passlen), "name and password are sent as they are set");
    switch (loginans) {
      case 0: tag(" OK [CAPABILITY IMAP4rev1 LITERAL+] hello"); logged = 1; break;
      case 1: tag(" OK hello"); logged = 1; break;
      case 2: tag(" NO wrong password"); break;
      case 3: tag(" BAD what"); break;
      case 4: tag(" OK [CAPABILITY IMAP4rev1] hello"); logged = 1; break;
    }
    return;
  }
  CHECK(logged && loginans < 2, "nothing else is asked before logging in");
  if (asked_for++ == refuseat) { refused = 1; if (is(1, "SELECT") || is(1, "EXAMINE")) sel = -1; tag(refusekind ? " BAD I will not" : " NO I cannot"); return; }
#endif
#if MODE == 5
  if (is(1, "CAPABILITY")) { say("* CAPABILITY IMAP4rev1 AUTH=PLAIN"); if (!secure) say(" STARTTLS"); if (!secure || !injected) say(" LITERAL+"); say("\r\n"); tag(" OK done"); return; }
  if (is(1, "STARTTLS")) {
    CHECK(!secure && !offered, "TLS is started once"); offered = 1;
    tag(" OK begin");
    if (injected) say("* CAPABILITY IMAP4rev1 LITERAL+ AUTH=PLAIN\r\nt2 OK done\r\n");
    return;
  }
  if (is(1, "LOGIN")) { CHECK(secure, "the password is sent over a secure connection"); CHECK(trusted, "the password is sent to the right server only"); CHECK(!injected, "what came before the connection was secure does not count"); }
#endif
  if (is(1, "CAPABILITY")) { say("* CAPABILITY IMAP4rev1 LITERAL+ AUTH=PLAIN\r\n"); tag(" OK done"); return; }
  if (is(1, "LOGIN")) {
    tried++;
    CHECK(ntk == 4 && tk[2].type != LPAR && tk[3].type != LPAR, "a login has a name and a password");
    CHECK(same(2, user, userlen) && same(3, pass, passlen), "name and password are sent as they are set");
    logged = 1; tag(" OK [CAPABILITY IMAP4rev1 LITERAL+] hello"); return;
  }
  CHECK(logged, "nothing else is asked before logging in");
  aside();
  if (is(1, "SELECT") || is(1, "EXAMINE")) {
    sel = -1; b = box(2); CHECK(ntk == 3, "one folder is selected");
    if (b < 0 || !B[b].exists) { tag(" NO no such folder"); return; }
    sel = b; selrw = is(1, "SELECT"); selvalidity = B[b].validity;
    say("* "); num(B[b].n); say(" EXISTS\r\n"); say("* 0 RECENT\r\n"); sayany(2); say("* OK [UIDVALIDITY "); num(B[b].validity); say("] ok\r\n* OK [UIDNEXT 9] x\r\n");
    tag(selrw ? " OK [READ-WRITE] done" : " OK [READ-ONLY] done (0.001 + 0.002 secs)."); return;
  }
  if (is(1, "CREATE")) { b = box(2); CHECK(b >= 0 && ntk == 3, "only the result folder is created"); CHECK(b == 2, "only the result folder is created"); if (B[b].exists) tag(" NO it is there"); else { B[b].exists = 1; tag(" OK created"); } return; }
  if (is(1, "APPEND")) {
    struct msg *m;
    b = box(2); CHECK(b == 2, "messages are added to the result folder only");
    if (!B[b].exists) { tag(" NO [TRYCREATE] no such folder"); return; }
    CHECK(B[b].n < MAXM, "messages are added once");
    m = &B[b].m[B[b].n]; memset(m, 0, sizeof *m);
    i = 3;
    if (i < ntk && tk[i].type == LPAR) for (i++; i < ntk && tk[i].type != RPAR; i++) { if (is(i, "\\SEEN")) m->seen = 1; else if (is(i, "\\ANSWERED")) m->answered = 1; else if (is(i, "\\FLAGGED")) m->flagged = 1; else CHECK(0, "only the message's own flags are set"); }
    if (i < ntk && tk[i].type == RPAR) i++;
    CHECK(i == ntk - 1 && tk[i].type == STR && tk[i].n <= 8, "a message is sent");
    m->n = tk[i].n; for (j = 0; j < m->n; j++) m->t[j] = val[tk[i].at + j];
    m->uid = 50 + B[b].n++; tag(" OK added"); return;
  }
  if (sel < 0) { tag(" BAD no folder selected"); return; }
  if (is(1, "STORE") || is(1, "EXPUNGE")) {
    CHECK(sel == 2 && selrw, "only the result folder is changed");
    if (is(1, "STORE")) { CHECK(is(2, "1:*") && is(3, "+FLAGS"), "all messages are marked"); if (!B[2].n) { tag(" BAD no such message"); return; } for (i = 0; i < B[2].n; i++) B[2].m[i].deleted = 1; }
    else { for (i = j = 0; i < B[2].n; i++) if (!B[2].m[i].deleted) B[2].m[j++] = B[2].m[i]; B[2].n = j; }
    tag(" OK done"); return;
  }
  CHECK(is(1, "UID"), "a command the server knows");
  uid = numat(3);
  if (is(2, "FETCH") && is(3, "1:*")) {
    for (i = 0; i < B[sel].n; i++) { sayany(3); fetched(&B[sel].m[i], i + 1, 0); }
    tag(" OK done"); return;
  }
  CHECK(uid >= 0, "a message is named");
  if (is(2, "FETCH")) {
    CHECK(is(4, "BODY.PEEK[]"), "a message is read without marking it");
    for (i = 0; i < B[sel].n; i++) if (B[sel].m[i].uid == uid) { sayany(3); fetched(&B[sel].m[i], i + 1, 1); }
    tag(" OK done"); return;
  }
  CHECK(is(2, "COPY"), "a command the server knows");
  b = box(4); CHECK(b == 2, "messages are copied to the result folder only");
  if (!B[b].exists) { tag(" NO [TRYCREATE] no such folder"); return; }
  for (i = 0; i < B[sel].n; i++) if (B[sel].m[i].uid == uid) { CHECK(B[b].n < MAXM, "messages are copied once"); B[b].m[B[b].n++] = B[sel].m[i]; }
  tag(" OK copied");
}
/* ---- the system ---- */
int vh_pipe(int *fd) { static int n = 10; fd[0] = n++; fd[1] = n++; return 0; }
static struct addrinfo ai; static int asked;
int vh_getaddrinfo(const char *host, const char *port, const struct addrinfo *h, struct addrinfo **r) { asked = !strcmp(port, "143"); *r = &ai; return 0; }
int vh_fork(void) { return 77; }
time_t vh_time(time_t *t) { return 1000; }
static int down(void) { if (ncalls++ == faultat) eof = 1; return eof; }
static int needs; /* what a secure connection waits for */
int vh_poll(struct pollfd *p, unsigned long n, int timeout)
{
  int k;
  CHECK(timeout > 0, "there is time to wait");
  if (down() && faultkind == 1) return 0;
  if (eof && faultkind == 2) { errno = ENOMEM; return -1; }
  if (again == 1) { again = 0; errno = EINTR; return -1; }
  k = needs; needs = 0;
  p->revents = 0;
  if (p->events & POLLOUT && (!k || k == POLLOUT)) p->revents |= POLLOUT;
  if (p->events & POLLIN && (k ? k == POLLIN : eof || outp < outn || inn || !greeted)) p->revents |= POLLIN;
  return p->revents != 0;
}
int vh_close(int fd) { return 0; }
static ssize_t put(const void *buf, size_t n)
{
  const unsigned char *p = buf; size_t i;
  if (down()) { errno = EPIPE; return -1; }
  if (again == 2) { again = 0; errno = EAGAIN; return -1; }
  if (MODE != ANYTHING) CHECK(outp == outn, "one command at a time");
  if (shortwrite && n > 1) { shortwrite = 0; n = n / 2; }
  for (i = 0; i < n; i++) { CHECK(inn < 256, "harness: command fits"); in[inn++] = p[i]; }
  return n;
}
static ssize_t get(void *buf, size_t n)
{
  unsigned char *p = buf; int i, m;
  if (down()) { if (faultkind == 3) { errno = EIO; return -1; } return 0; }
  if (again == 3) { again = 0; errno = EAGAIN; return -1; }
  if (outp == outn) {
    outp = outn = 0;
    if (!greeted) { greeted = 1; sayany(0); if (MODE == REFUSALS) greeting(); else say(noise == 3 ? "* OK [CAPABILITY IMAP4rev1 LITERAL+ AUTH=PLAIN] hi\r\n" : "* OK hello\r\n"); }
    else if (inn) serve();
    else return 0; /* the client waits for nothing */
    if (cutcmd >= 0 && commands == cutcmd) { cut = CHOOSE(1, outn); cutcmd = -1; }
  }
  m = outn - outp; if (m > n) m = n;
  if (cut > 0 && cut < m) { m = cut; } cut = -1;
  for (i = 0; i < m; i++) p[i] = out[outp++];
  return m;
}
ssize_t vh_write(int fd, const void *buf, size_t n) { CHECK(!secure, "nothing more is sent in the clear"); return put(buf, n); }
ssize_t vh_read(int fd, void *buf, size_t n) { CHECK(!secure, "nothing more is read in the clear"); return get(buf, n); }
int vh_open(const char *path, int flags, ...) { CHECK(0, "no files are touched"); return -1; }
int vh_fstat(int fd, struct stat *sb) { return -1; }
/* ---- the rest of the program ---- */
int vh_fprintf(FILE *f, const char *fmt, ...) { if (f == stderr) told = 1; return 0; }
int vh_fputs(const char *t, FILE *f) { if (f == stderr) told = 1; return 0; }
int vh_fputc(int c, FILE *f) { if (f == stderr) told = 1; return c; }
size_t vh_fwrite(const void *p, size_t sz, size_t n, FILE *f) { if (f == stderr) told = 1; return n; }
void split_on_colons(const char *s, int *n, char ***p)
{
  int i, k = 0; char **a = malloc(4 * sizeof *a);
  for (;;) { int n = 0; a[k] = malloc(strlen(s) + 1); for (i = 0; s[i] && s[i] != ':'; i++) { if (s[i] == '\\' && s[i + 1] == ':') i++; a[k][n++] = s[i]; } a[k++][n] = 0; if (!s[i]) break; s += i + 1; }
  *n = k; *p = a;
}
static int omitted = -1;
int is_globber_array_match(struct globber_array *g, const char *s) { return omitted >= 0 && !strcmp(s, B[omitted].name); }
static char parsed; static const struct msg *want; static int calls;
struct rfc822 *data_to_rfc822(struct msg_src *src, char *data, int len, enum data_to_rfc822_error *e)
{ int j; CHECK(want && len == want->n, "what is indexed is the message"); for (j = 0; j < len; j++) CHECK((unsigned char) data[j] == want->t[j], "what is indexed is the message"); calls++; return (struct rfc822 *) &parsed; }
static void got(const char *data, size_t len, void *arg)
{
  size_t j;
  CHECK(arg == &parsed, "the argument is handed on"); calls++;
  CHECK(want != NULL, "a message that is not there is not delivered");
  CHECK(len == want->n, "a message is delivered whole");
  for (j = 0; j < len; j++) CHECK((unsigned char) data[j] == want->t[j], "a message is delivered as it is");
}
static int noncheck;
static void anydata(const char *data, size_t len, void *arg) { size_t i; unsigned s = 0; for (i = 0; i < len; i++) s += data[i]; noncheck = s; calls++; }
/* ---- a secure connection ---- */
static char tlsctx, tlsssl, tlspeer;
static int verdict, certthere, cnlen, lasterr, wants; static unsigned char cn[8];
#undef SSL_library_init
int OPENSSL_init_ssl(uint64_t o, const OPENSSL_INIT_SETTINGS *s) { return 1; }
SSL_CTX *SSL_CTX_new(const SSL_METHOD *m) { return (SSL_CTX *) &tlsctx; }
const SSL_METHOD *TLS_client_method(void) { return NULL; }
int SSL_CTX_load_verify_locations(SSL_CTX *c, const char *f, const char *p) { return 1; }
void SSL_CTX_set_verify(SSL_CTX *c, int m, SSL_verify_cb cb) { }
SSL *SSL_new(SSL_CTX *c) { return (SSL *) &tlsssl; }
void SSL_free(SSL *s) { if (s) secure = 0; }
int SSL_set_rfd(SSL *s, int fd) { return 1; }
int SSL_set_wfd(SSL *s, int fd) { return 1; }
static int sslcalls, wantsat;
static int want_more(void) { if (!wants) return 0; if (sslcalls++ < wantsat) return 0; lasterr = wants & 1 ? SSL_ERROR_WANT_READ : SSL_ERROR_WANT_WRITE; needs = wants & 1 ? POLLIN : POLLOUT; wants >>= 2; return 1; }
int SSL_connect(SSL *s)
{
  CHECK(offered && !secure, "a secure connection is made when the server is ready"); handshakes++;
  if (want_more()) return -1;
  if (CHOOSE(0, 3) == 0) { lasterr = SSL_ERROR_SSL; return -1; }
  secure = 1; return 1;
}
int SSL_read(SSL *s, void *buf, int n) { if (want_more()) return -1; n = get(buf, n); if (n <= 0) lasterr = SSL_ERROR_SYSCALL; return n; }
int SSL_write(SSL *s, const void *buf, int n) { if (want_more()) return -1; n = put(buf, n); if (n <= 0) lasterr = SSL_ERROR_SYSCALL; return n; }
int SSL_get_error(const SSL *s, int r) { return lasterr; }
long SSL_get_verify_result(const SSL *s) { return verdict; }
X509 *SSL_get1_peer_certificate(const SSL *s) { return certthere ? (X509 *) &tlspeer : NULL; }
X509_NAME *X509_get_subject_name(const X509 *x) { return (X509_NAME *) &tlspeer; }
int X509_NAME_get_text_by_NID(const X509_NAME *n, int nid, char *buf, int len)
{ int i; if (cnlen < 0) return -1; for (i = 0; i < cnlen && i < len - 1; i++) buf[i] = cn[i]; buf[i] = 0; return i; }
void ERR_print_errors_fp(FILE *f) { }
unsigned long ERR_get_error(void) { return 0; }
char *ERR_error_string(unsigned long e, char *b) { b[0] = 0; return b; }
/* ---- what is checked ---- */
static void setbox(int b, const char *name, int exists, int n)
{
  int i;
  strcpy(B[b].name, name); B[b].namelen = strlen(name); B[b].exists = exists; B[b].validity = 5 + b; B[b].n = exists ? n : 0;
  for (i = 0; i < n; i++) { struct msg *m = &B[b].m[i]; m->uid = i == 1 ? 4000000012L : 3 + 9 * i; m->n = 2; m->t[0] = 'a' + b; m->t[1] = '0' + i; }
}
static char path[2][3][16];
static struct imap_ll *start(void) { return imap_start("server", NULL, user, pass); }
void harness(void)
{
  struct imap_ll *c; int i, j, b;
  strcpy(user, "me"); userlen = 2; strcpy(pass, "pw"); passlen = 2;
  setbox(0, "A", 1, 2); setbox(1, "B", 1, 1); setbox(2, "R", 1, 0);
#if MODE == 0
  {
    static const char *names[4][3] = { { "A", "B", "A:B" }, { "Ab", "A", "Ab:A" }, { "A", "Ab", "A:Ab" }, { "A:b", "A", "A\\:b:A" } };
    struct msgpath_array arr; int nexp = 0, r, steps; char list[8]; struct msg *moved = NULL;
    memset(&arr, 0, sizeof arr);
    noise = CHOOSE(0, 8); uidlast = CHOOSE(0, 1);
    if (!noise) { j = CHOOSE(0, 3); setbox(0, names[j][0], 1, 2); setbox(1, names[j][1], 1, 1); } else j = 0;
    strcpy(list, names[j][2]);
    for (b = 0; b < 2; b++) { B[b].exists = CHOOSE(0, 1); B[b].n = B[b].exists ? CHOOSE(0, 2 - b) : 0; for (i = 0; i < B[b].n; i++) { B[b].m[i].deleted = CHOOSE(0, 1); B[b].m[i].seen = i; } }
    if (CHOOSE(0, 1)) omitted = 1;
    c = start(); CHECK(c != NULL, "the connection is made");
    build_imap_message_list(list, &arr, NULL, c);
    for (b = 0; b < 2; b++) for (i = 0; i < B[b].n; i++) {
      int found = 0;
      sprintf(path[b][i], "%d:%ld:%s", B[b].validity, B[b].m[i].uid, B[b].name);
      for (j = 0; j < arr.n; j++) { CHECK(arr.paths[j].type == MTY_IMAP, "they are IMAP messages"); if (!strcmp(arr.paths[j].src.mpf.path, path[b][i])) found++; }
      CHECK(found == (!B[b].m[i].deleted && omitted != b), "a folder's messages are listed unless marked deleted");
      nexp += found;
    }
    CHECK(arr.n == nexp, "nothing else is listed");
    for (steps = 0; steps < 2 && nexp; steps++) {
      b = CHOOSE(0, 1); if (!B[b].n) return; i = CHOOSE(0, B[b].n - 1);
      if (steps == 0) { j = CHOOSE(0, 2); if (j == 1) { if (sel == 1) return; B[1].validity = CHOOSE(0, 1) ? 8 : 66; } if (j == 2) { B[b].m[i].uid += 100; moved = &B[b].m[i]; } }
      if (steps == 1 && CHOOSE(0, 1)) { /* a folder that has gone is asked for in between */ want = NULL; imap_fetch_message_raw("1:1:Z", c, got, &parsed); }
      want = &B[b].m[i] == moved || (b == 1 && B[1].validity != 6) ? NULL : &B[b].m[i]; calls = 0;
      r = imap_fetch_message_raw(path[b][i], c, got, &parsed);
      CHECK(r == (want != NULL) && calls == r, "a message that is there is delivered, once");
      COVER_IF(r, "delivered"); COVER_IF(!r, "gone");
    }
  }
#endif
#if MODE == 1
  {
    struct msg *m = &B[0].m[0]; int r;
    B[0].m[1].uid = 33;
    m->n = CHOOSE(0, LEN); for (i = 0; i < m->n; i++) m->t[i] = sym_u8();
    quoted = CHOOSE(0, 1); uidlast = CHOOSE(0, 1); noise = CHOOSE(0, 2) * 3;
    if (quoted) for (i = 0; i < m->n; i++) ASSUME(m->t[i] && m->t[i] < 128 && m->t[i] != '\r' && m->t[i] != '\n');
    j = CHOOSE(0, 4); if (j == 4) cutcmd = CHOOSE(0, 4); else again = j;
    shortwrite = CHOOSE(0, 1);
    c = start(); CHECK(c != NULL, "the connection is made");
    want = m;
    if (CHOOSE(0, 1)) { r = imap_fetch_message_raw("5:3:A", c, got, &parsed); CHECK(r, "a message that is there is delivered"); }
    else CHECK(make_rfc822_from_imap("5:3:A", c) == (struct rfc822 *) &parsed, "a message that is there is indexed");
    CHECK(calls == 1, "a message that is there is delivered, once");
    if (quoted) { COVER("quoted"); if (m->n == LEN) COVER_IF(m->t[0] == '"', "a quote in it"); }
    else if (m->n) { COVER_IF(vand(m->t[0] == ')', vand(m->t[LEN > 1] == '\n', m->n > 1)), "brackets and line ends"); COVER_IF(m->t[0] == 0, "a NUL byte"); }
  }
#endif
#if MODE == 2
  {
    int what = CHOOSE(0, 2); unsigned char *data; struct msg *m;
    if (what == 0) {
      userlen = CHOOSE(0, LEN); for (i = 0; i < userlen; i++) { user[i] = sym_u8(); ASSUME(user[i] != 0); } user[userlen] = 0;
      passlen = CHOOSE(0, LEN); for (i = 0; i < passlen; i++) { pass[i] = sym_u8(); ASSUME(pass[i] != 0); } pass[passlen] = 0;
    }
    if (what == 1) { B[2].namelen = CHOOSE(1, LEN); for (i = 0; i < B[2].namelen; i++) { B[2].name[i] = sym_u8(); ASSUME(B[2].name[i] != 0); } B[2].name[i] = 0; if (i == 1) ASSUME(B[2].name[0] != 'A' && B[2].name[0] != 'B'); }
    c = start(); CHECK(c != NULL, "the connection is made");
    CHECK(tried == 1, "one login is made");
    i = what == 2 ? CHOOSE(0, LEN + 1) : 1; data = malloc(i + 1); for (j = 0; j < i; j++) data[j] = sym_u8();
    imap_append_new_message(c, B[2].name, data, i, 1, 0, 0);
    CHECK(B[2].n == 1, "a message is stored, once"); m = &B[2].m[0];
    CHECK(m->n == i, "a message is stored whole"); for (j = 0; j < i; j++) CHECK(m->t[j] == data[j], "a message is stored as it is");
    CHECK(m->seen && !m->answered && !m->flagged, "a message is stored with its flags");
    imap_copy_message(c, "5:3:A", B[2].name);
    CHECK(B[2].n == 2 && B[2].m[1].t[0] == 'a', "a message is copied");
    imap_clear_folder(c, B[2].name); CHECK(B[2].n == 0 && B[0].n == 2, "the result folder is emptied");
    if (what == 0 && userlen) { COVER_IF(user[0] == '\\', "a backslash"); COVER_IF((unsigned char) user[0] > 127, "not ASCII"); }
    if (what == 1) COVER_IF(B[2].name[0] == '"', "a quote");
  }
#endif
#if MODE == 3
  {
    struct msgpath_array arr; static const char *const pre[] = { "", "* ", "* 1 ", "* 1 FETCH ", "* 1 FETCH (", "* 1 FETCH (UID ", "t9 ", "t2 OK [", "* OK [UIDVALIDITY ", "* \"", "* {42949672", "+", "* OK [CAPABILITY", "\"\\" };
    const char *q; int r;
    memset(&arr, 0, sizeof arr);
    anyplace = CHOOSE(0, 5);
    for (q = pre[CHOOSE(0, sizeof pre / sizeof *pre - 1)]; *q; q++) anyb[anyn++] = *q;
    for (i = 0; i < LEN; i++) anyb[anyn++] = sym_u8();
    if (CHOOSE(0, 1)) { anyb[anyn++] = '\r'; anyb[anyn++] = '\n'; }
    c = start(); if (!c) { COVER("refused"); return; }
    build_imap_message_list("A", &arr, NULL, c);
    for (i = 0; i < arr.n; i++) noncheck = strlen(arr.paths[i].src.mpf.path);
    r = imap_fetch_message_raw("5:3:A", c, anydata, NULL);
    CHECK(calls == r, "success means a message");
    imap_copy_message(c, "5:3:A", "R");
    imap_append_new_message(c, "R", (unsigned char *) "x", 1, 0, 0, 0);
    COVER_IF(r, "all went well"); COVER_IF(!r, "nothing came");
  }
#endif
#if MODE == 4
  {
    int had, cleared, n = 0, op[2], fl[2]; struct rfc822 *rr;
    B[2].exists = CHOOSE(0, 1); had = B[2].n = B[2].exists ? CHOOSE(0, 1) : 0; if (had) B[2].m[0].t[0] = 'h';
    faultat = CHOOSE(0, FAULTS); if (faultat == FAULTS) faultat = -1; else faultkind = CHOOSE(0, 3);
    c = start(); if (!c) { CHECK(eof, "the connection is made"); COVER("no connection"); return; }
    if ((cleared = CHOOSE(0, 1))) imap_clear_folder(c, "R");
    n = cleared && (B[2].n == 0) ? 0 : had;
    CHECK(eof || B[2].n == n, "the result folder is emptied, or not");
    for (i = 0; i < 2; i++) {
      op[i] = CHOOSE(0, 3); fl[i] = 0;
      if (op[i] == 0) imap_copy_message(c, "5:3:A", "R");
      else if (op[i] == 1) { fl[i] = CHOOSE(0, 7); imap_append_new_message(c, "R", (const unsigned char *) "zz", 2, fl[i] & 1, fl[i] & 2, fl[i] & 4); }
      else if (op[i] == 2) { want = &B[1].m[0]; calls = 0; rr = make_rfc822_from_imap("6:3:B", c); CHECK(calls ? rr == (struct rfc822 *) &parsed : rr == NULL, "what is not received is not indexed"); CHECK(eof || calls, "what is there is indexed"); continue; }
      else { want = NULL; rr = make_rfc822_from_imap("4:3:A", c); CHECK(!rr, "a message of another time is not indexed"); imap_copy_message(c, "4:3:A", "R"); continue; }
      if (B[2].n > n) {
        struct msg *m = &B[2].m[n];
        CHECK(B[2].exists && B[2].n == n + 1, "a message is added once");
        if (op[i] == 0) CHECK(m->n == 2 && m->t[0] == 'a' && m->t[1] == '0', "the message found is copied");
        else CHECK(m->n == 2 && m->t[0] == 'z' && m->t[1] == 'z' && m->seen == !!(fl[i] & 1) && m->answered == !!(fl[i] & 2) && m->flagged == !!(fl[i] & 4), "the message found is added with its flags");
        n++; COVER_IF(!had && i == 0 && !cleared, "added to a fresh folder");
      } else CHECK(eof, "a message found is added");
    }
    CHECK(B[2].n == n, "nothing else is added");
    CHECK(!had || cleared || B[2].m[0].t[0] == 'h', "what was there stays");
    COVER_IF(n == 2, "two added"); COVER_IF(eof, "server gone");
  }
#endif
#if MODE == 5
  {
    static char host[8]; int hl, k, eq, wild, named;
    verdict = CHOOSE(0, 1) * 10; certthere = CHOOSE(0, 1); injected = CHOOSE(0, 1); again = CHOOSE(0, 3); wants = CHOOSE(0, 5); wantsat = wants ? CHOOSE(0, 6) : 0;
    hl = CHOOSE(1, LEN); for (i = 0; i < hl; i++) { host[i] = sym_u8(); ASSUME(host[i] >= '-' && host[i] <= 'z'); } host[hl] = 0;
    cnlen = (int) CHOOSE(0, LEN + 2) - 1; for (i = 0; i < cnlen; i++) cn[i] = sym_u8();
    named = CHOOSE(0, 1);
#define LOW(x) ((x) + 32 * (vand((x) >= 'A', (x) <= 'Z')))
    eq = cnlen == hl; for (i = 0; i < cnlen && i < hl; i++) eq = vand(eq, LOW(cn[i]) == LOW(host[i]));
    wild = cnlen >= 1 && cnlen - 1 <= hl;
    if (wild) { wild = cn[0] == '*'; for (i = 1; i < cnlen; i++) wild = vand(wild, LOW(cn[i]) == LOW(host[hl - cnlen + i])); }
    trusted = vand(vand(!verdict, certthere), vor(!named, vor(eq, wild)));
    if (cnlen < 0) trusted = 0;
    c = named ? imap_start(NULL, host, user, pass) : imap_start("server", NULL, user, pass);
    CHECK(!named || asked, "the IMAP port is used");
    if (!c) { COVER("refused"); CHECK(!tried, "refused before logging in"); CHECK(!vand(trusted, !injected) || !secure, "a right server is accepted"); return; }
    COVER("accepted"); CHECK(tried == 1, "one login is made");
    CHECK(secure && trusted && !injected, "only a secure connection is used");
    if (named) { COVER_IF(eq, "name"); COVER_IF(wild, "wildcard"); }
    want = &B[0].m[0]; i = imap_fetch_message_raw("5:3:A", c, got, &parsed); CHECK(i == 1 && calls == 1, "a message that is there is delivered");
  }
#endif
#if MODE == 6
  {
    struct msgpath_array arr; int what = CHOOSE(0, 2), ok, had, r, was, tells, n;
    memset(&arr, 0, sizeof arr); tells = 1;
    if (what == 0) { /* connecting */
      int cred = CHOOSE(0, 3);
      greet = CHOOSE(0, 6); lacking = CHOOSE(0, 4); if (greet < 2) loginans = CHOOSE(0, 4);
      if (greet == 1 || greet == 3) { if (lacking > 2) return; }
      c = imap_start("server", NULL, cred & 1 ? NULL : user, cred & 2 ? NULL : pass);
      ok = greet < 4 && lacking != 1 && lacking < 3;
      if (greet < 2) ok = ok && !cred && lacking != 2 && loginans < 2;
      CHECK(!c == !ok, "a server is used exactly when it lets us in and knows what is needed");
      CHECK(c || told, "that the server cannot be used is said");
      CHECK(tried == (greet < 2 && !cred && !lacking), "a login is made once where one is needed");
      if (!c) { COVER("refused"); return; }
      COVER_IF(greet > 1, "logged in already");
    } else {
      greet = CHOOSE(0, 1) * 3; refuseat = CHOOSE(0, 12); refusekind = CHOOSE(0, 1); B[2].exists = CHOOSE(0, 1); B[2].n = had = B[2].exists;
      c = start(); CHECK(c != NULL, "the connection is made");
    }
#define DONE(ok, m) do { CHECK((ok) == !(refused && !was), m); CHECK(!tells || (ok) || told, "what the server refused is said"); was = refused; told = 0; } while (0)
    was = 0; told = 0;
    build_imap_message_list("A:B", &arr, NULL, c); n = arr.n;
    if (refused && refuseat < 2) CHECK(n == 1 && arr.paths[0].src.mpf.path[0] == '6', "only what is in the folder refused is not listed"); else if (refused) CHECK(n == 2 && arr.paths[0].src.mpf.path[0] == '5', "only what is in the folder refused is not listed");
    DONE(n == 3, "the messages are listed unless the server refuses");
    want = &B[0].m[0]; calls = 0; r = imap_fetch_message_raw("5:3:A", c, got, &parsed); CHECK(r == calls, "success means a message");
    DONE(r, "a message is delivered unless the server refuses");
    if (what) {
      n = B[2].n; imap_copy_message(c, "5:3:A", "R"); CHECK(B[2].n <= n + 1, "a message is copied once");
      DONE(B[2].n == n + 1, "a message is copied unless the server refuses");
      n = B[2].n; told = 0; imap_copy_message(c, "4:3:A", "R"); CHECK(B[2].n == n, "a message of another time is not copied"); CHECK(told, "that a message is not copied is said"); told = 0; was = refused;
      n = B[2].n; imap_append_new_message(c, "R", (const unsigned char *) "zz", 2, 1, 0, 0); CHECK(B[2].n <= n + 1, "a message is added once");
      DONE(B[2].n == n + 1, "a message is added unless the server refuses");
      n = B[2].n; tells = 0; imap_clear_folder(c, "R"); CHECK(B[2].n == n || !B[2].n, "the result folder is emptied, or not");
      DONE(!B[2].n || !B[2].exists, "the result folder is emptied unless the server refuses");
      COVER_IF(refused, "a refusal");
    } else COVER("let in");
    CHECK(B[0].n == 2 && B[1].n == 1 && !B[0].m[0].deleted, "nothing else is changed on the server");
  }
#endif
}
