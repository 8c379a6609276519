/* Token table: however tokens hash, each distinct word (ignoring case) has
 * exactly one entry, holding exactly the messages it was seen in.  The hash
 * function is replaced by an arbitrary function of the text (collisions, wrap
 * round the end of the table); the table starts small so that it is enlarged. */
#include "vh.h"
#include "mairix.h"
#include "reader.h"
#ifndef K
#define K 3
#endif
#ifndef LEN
#define LEN 1
#endif
#ifndef PREMAX
#define PREMAX 0
#endif
static int pl; /* the words' first symbolic bytes are followed by pl x's and one more symbolic byte */
static const int pls[] = { 0, 6, 14, 30, 62, 126, 254, 510, 1022, 4094 };
static char ht[K+1][LEN+1];
static unsigned hv[K+1];
static int nh;
static int eq(const char *a, const char *b)
{ int i, r = 1; for (i = 0; i < LEN; i++) r = vand(r, a[i] == b[i]); return r; }
/* the bytes of a word that are not filler */
static char *core(const char *w)
{
  char *c = malloc(LEN + 1); int i;
  for (i = 0; i < LEN; i++) c[i] = (!PREMAX || i < LEN - 1) ? w[i] : w[i + pl];
  for (i = 0; i < pl; i++) if (w[LEN - 1 + i] != 'x') { CHECK(0, "the whole word is handled"); }
  c[LEN] = 0;
  return c;
}
unsigned int hashfn(unsigned char *k, unsigned int length, unsigned int initval)
{
  static const unsigned vals[3] = { 3, 7, 0xfffffff6 };
  int i;
  CHECK(length == (unsigned) (LEN + pl), "the whole text is hashed");
  if (PREMAX) k = (unsigned char *) core((char *) k);
  for (i = 0; i < nh; i++) if (eq(ht[i], (char *) k)) return hv[i];
  CHECK(nh < K, "no text is hashed that was not added");
  memcpy(ht[nh], k, LEN); hv[nh] = vals[CHOOSE(0, 2)];
  return hv[nh++];
}
static int lower(int c) { return c + 32 * vand(c >= 'A', c <= 'Z'); }

#ifdef TWO
typedef struct toktable2 T; typedef struct token2 TOK;
#define NEW new_toktable2
#else
typedef struct toktable T; typedef struct token TOK;
#define NEW new_toktable
#endif

static int postings(struct matches *m, const int *idx, const int *who, const int *use, int g, int n)
{
  struct int_list_reader r;
  int i, v, got = 0, want = 0, last = -1;
  matches_int_list_reader_init(&r, m);
  for (i = 0; i < n; i++) {
    if (who[i] != g || !use[i] || idx[i] == last) continue;
    last = idx[i]; want++;
    if (!int_list_reader_read(&r, &v)) break;
    CHECK(v == idx[i], "the word's entry lists the message it was seen in");
    got++;
  }
  CHECK(got == want, "the word's entry lists every message it was seen in");
  CHECK(!int_list_reader_read(&r, &v), "the word's entry lists no other message");
  return want;
}

void harness(void)
{
  T *t = NEW();
  char txt[K][LEN+1], low[K][LEN+1];
  int idx[K], who[K], one[K], all[K], i, j, ng = 0, found; char *w;
  if (PREMAX) pl = pls[CHOOSE(0, PREMAX)];
  t->size = 4; t->mask = 3; t->hwm = 1; t->n = 0;
  t->tokens = malloc(4 * sizeof *t->tokens);
  for (i = 0; i < 4; i++) t->tokens[i] = NULL;
  for (i = 0; i < K; i++) {
    for (j = 0; j < LEN; j++) { txt[i][j] = (char) sym_u8(); ASSUME(txt[i][j] != 0); low[i][j] = lower((unsigned char) txt[i][j]); }
    txt[i][LEN] = low[i][LEN] = 0;
    w = txt[i];
    if (PREMAX) {
      w = malloc(LEN + pl + 1); memcpy(w, txt[i], LEN - 1); memset(w + LEN - 1, 'x', pl); w[LEN - 1 + pl] = txt[i][LEN - 1]; w[LEN + pl] = 0;
    }
    who[i] = i;
    for (j = 0; j < i; j++) if (eq(low[i], low[j])) { who[i] = j; break; }
    if (who[i] == i) ng++;
    idx[i] = (i ? idx[i-1] : 0) + CHOOSE(0, 1);
    all[i] = 1;
#ifdef TWO
    one[i] = CHOOSE(0, 1);
    add_token2_in_file(idx[i], 99, w, t, one[i]);
#else
    add_token_in_file(idx[i], 99, w, t);
#endif
  }
  CHECK(t->n == ng, "number of entries is the number of distinct words");
  CHECK(t->n < t->size, "the table keeps free slots, so lookups terminate");
  for (i = 0; i < K; i++) {
    if (who[i] != i) continue;
    found = 0;
    for (j = 0; j < t->size; j++) {
      TOK *k = t->tokens[j];
      if (!k || !eq(PREMAX ? core(k->text) : k->text, low[i])) continue;
      CHECK(k->text[LEN + pl] == 0, "the stored word is the whole word");
      found++;
      postings(&k->match0, idx, who, all, i, K);
#ifdef TWO
      postings(&k->match1, idx, who, one, i, K);
#endif
    }
    CHECK(found == 1, "each distinct word has exactly one entry");
  }
  OBSERVE(t->n);
  COVER_IF(ng == 1, "one word");
  COVER_IF(ng == K, "all words distinct");
}
