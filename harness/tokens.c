/* Which words a message is indexed under: the real tokeniser and token tables
 * on a parsed message all of whose fields are filled in, one of them with
 * arbitrary text. */
#define VH_NAMES
#include "vh.h"
#include "vhsys.h"
#undef stat
#undef lstat
#include "mairix.h"
#include "reader.h"
#include "imapinterface.h"
#ifndef L
#define L 4
#endif
#ifndef FLO
#define FLO 0
#endif
#ifndef FHI
#define FHI 10
#endif
void free_rfc822(struct rfc822 *r) { }
int add_mbox_messages(struct database *db) { return 0; }
void cull_dead_mboxen(struct database *db) { }
void free_mboxen(struct database *db) { }
struct rfc822 *make_rfc822(char *fn) { return NULL; }
struct rfc822 *make_rfc822_from_imap(const char *fn, struct imap_ll *c) { return NULL; }
int vh_stat(const char *p, struct stat *sb) { return -1; }
/* how words are spread over the table is another property */
unsigned int hashfn(unsigned char *k, unsigned int length, unsigned int initval) { return 9; }

#define MAXW 24
static struct { const char *p; int n; int one; } want[7][MAXW];
static int nw[7];
static int lower(int c) { return c + 32 * vand(c >= 'A', c <= 'Z'); }
static int same(const char *a, int n, const char *b, int m)
{ int i; if (n != m) return 0; for (i = 0; i < n; i++) if (lower((unsigned char) a[i]) != lower((unsigned char) b[i])) return 0; return 1; }
static void expect(int t, const char *p, int n, int one)
{
  int i;
  for (i = 0; i < nw[t]; i++) if (same(want[t][i].p, want[t][i].n, p, n)) { want[t][i].one |= one; return; }
  want[t][nw[t]].p = p; want[t][nw[t]].n = n; want[t][nw[t]].one = one; nw[t]++;
}
static int isw(unsigned char c, int addr)
{
  int r = vor(vor(vand(c >= 'a', c <= 'z'), vand(c >= 'A', c <= 'Z')), vor(vand(c >= '0', c <= '9'), c == '_'));
  if (addr) r = vor(r, vor(vor(c == '+', c == '-'), vor(c == '.', c == '@')));
  return r;
}
static void words(int t, const char *s, int addr, int html)
{
  int i = 0, b;
  while (s[i]) {
    if (isw(s[i], addr)) { b = i; while (s[i] && isw(s[i], addr)) i++; expect(t, s + b, i - b, 0); }
    else if (html && s[i] == '<') { while (s[i] && s[i] != '>') i++; }
    else i++;
  }
}
static void ids(const char *s, int one)
{
  int i = 0, b;
  while (s[i]) {
    if (s[i] != '<') { i++; continue; }
    b = ++i;
    while (s[i] && s[i] != '>') i++;
    if (s[i]) expect(6, s + b, i - b, one);
  }
}
static int lists(struct matches *m, int msg)
{
  struct int_list_reader r; int v;
  matches_int_list_reader_init(&r, m);
  if (!int_list_reader_read(&r, &v)) return 0;
  CHECK(v == msg, "words are filed under the message they came from");
  CHECK(!int_list_reader_read(&r, &v), "words are filed under the message once");
  return 1;
}
static void verify(int t, struct toktable *tab, struct toktable2 *tab2, int msg)
{
  int i, j, n = 0, size = tab ? tab->size : tab2->size;
  static struct token *e[MAXW]; static struct token2 *e2[MAXW];
  CHECK((tab ? tab->n : tab2->n) == nw[t], "the number of words indexed is right");
  for (j = 0; j < size; j++)
    if (tab ? tab->tokens[j] != NULL : tab2->tokens[j] != NULL) { CHECK(n < nw[t], "no other words are indexed"); if (tab) e[n++] = tab->tokens[j]; else e2[n++] = tab2->tokens[j]; }
  CHECK(n == nw[t], "all words are in the table");
  for (i = 0; i < nw[t]; i++) {
    int f = 0;
    for (j = 0; j < n; j++) {
      const char *x = tab ? e[j]->text : e2[j]->text; int k;
      if (strlen(x) != want[t][i].n) continue;
      for (k = 0; k < want[t][i].n; k++) if (x[k] != (char) lower((unsigned char) want[t][i].p[k])) break;
      if (k < want[t][i].n) continue;
      f++;
      CHECK(lists(tab ? &e[j]->match0 : &e2[j]->match0, msg), "a word is filed under the message");
      if (tab2) CHECK(lists(&e2[j]->match1, msg) == want[t][i].one, "an id counts as the message's own exactly when it is");
    }
    CHECK(f == 1, "each word is indexed, once");
  }
}
static char *copied(char *s) { return strcpy(malloc(strlen(s) + 1), s); }
static struct attachment *att(struct rfc822 *r, enum content_type ct, char *fn, char *text)
{
  struct attachment *a = malloc(sizeof *a);
  memset(a, 0, sizeof *a);
  a->ct = ct; a->filename = fn;
  if (ct != CT_MESSAGE_RFC822) { a->data.normal.bytes = copied(text); a->data.normal.len = strlen(text); }
  a->next = &r->atts; a->prev = r->atts.prev; a->prev->next = a; r->atts.prev = a;
  return a;
}
static struct rfc822 *mk(void)
{ struct rfc822 *r = malloc(sizeof *r); memset(r, 0, sizeof *r); r->atts.next = r->atts.prev = &r->atts; return r; }
void harness(void)
{
  struct database *db = new_database(7);
  struct rfc822 *r = mk(), *in = NULL, **rr;
  int f = CHOOSE(FLO, FHI), i, n = CHOOSE(0, L), msg = 3, bare = CHOOSE(0, 1);
  char *x = malloc(n + 1);
  for (i = 0; i < n; i++) { x[i] = sym_u8(); ASSUME(x[i] != 0); }
  x[n] = 0;
#define F(k, s) (f == k ? x : bare ? NULL : strdup(s))
  r->hdrs.to = F(0, "To t.o"); r->hdrs.cc = F(1, "Cc@c"); r->hdrs.from = F(2, "f-M"); r->hdrs.subject = F(3, "S@u");
  r->hdrs.message_id = F(8, "<I@d>"); r->hdrs.in_reply_to = F(9, "x <r.1> y"); r->hdrs.references = F(10, "<i@d><e.2>");
  if (r->hdrs.to) { words(0, r->hdrs.to, 0, 0); words(0, r->hdrs.to, 1, 0); }
  if (r->hdrs.cc) { words(1, r->hdrs.cc, 0, 0); words(1, r->hdrs.cc, 1, 0); }
  if (r->hdrs.from) { words(2, r->hdrs.from, 0, 0); words(2, r->hdrs.from, 1, 0); }
  if (r->hdrs.subject) words(3, r->hdrs.subject, 0, 0);
  if (r->hdrs.message_id) ids(r->hdrs.message_id, 1);
  if (r->hdrs.in_reply_to) ids(r->hdrs.in_reply_to, 0);
  if (r->hdrs.references) ids(r->hdrs.references, 0);
  if (!bare) { att(r, CT_OTHER, "P.pdf", "secret"); expect(5, "P.pdf", 5, 0); att(r, CT_OTHER, NULL, "other"); att(r, CT_TEXT_OTHER, NULL, "css"); }
  if (f == 4 || !bare) { char *s = f == 4 ? x : strdup("b1"); att(r, CT_TEXT_PLAIN, bare ? NULL : "n", s); words(4, s, 0, 0); if (!bare) expect(5, "n", 1, 0); }
  if (f == 5 || !bare) { char *s = f == 5 ? x : strdup("<a>h</b>k"); att(r, CT_TEXT_HTML, NULL, s); words(4, s, 0, 1); }
  if (f == 6) { att(r, CT_TEXT_OTHER, x, ""); expect(5, x, n, 0); }
  if (f == 7 || !bare) {
    char *fn = f == 7 ? (CHOOSE(0, 1) ? strdup("m.Eml") : NULL) : strdup("fw");
    struct attachment *a = att(r, CT_MESSAGE_RFC822, fn, NULL);
    if (fn) expect(5, fn, strlen(fn), 0);
    if (CHOOSE(0, 1)) {
      char *s = f == 7 ? x : strdup("inner");
      in = mk(); a->data.rfc822 = in; in->hdrs.subject = strdup("Sub"); words(3, in->hdrs.subject, 0, 0);
      in->hdrs.from = strdup("who"); words(2, in->hdrs.from, 0, 0);
      att(in, CT_TEXT_PLAIN, bare ? NULL : "deep", s); words(4, s, 0, 0); if (!bare) expect(5, "deep", 4, 0);
      COVER("message inside");
    }
    att(r, CT_TEXT_PLAIN, NULL, "after"); expect(4, "after", 5, 0);
  }
  tokenise_message(msg, db, r);
  verify(0, db->to, NULL, msg); verify(1, db->cc, NULL, msg); verify(2, db->from, NULL, msg); verify(3, db->subject, NULL, msg);
  verify(4, db->body, NULL, msg); verify(5, db->attachment_name, NULL, msg); verify(6, NULL, db->msg_ids, msg);
  COVER_IF(f == 0 && nw[0] > 1, "several words");
  OBSERVE(nw[0] + nw[4]);
}
