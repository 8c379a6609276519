/* Posting lists: whatever non-decreasing message numbers are recorded for a
 * token are the ones read back, in order, once each. */
#include "vh.h"
#include "mairix.h"
#include "reader.h"
#ifndef K
#define K 3
#endif
#define LIMIT 0x3f000000   /* message numbers below this; see DESIGN.md */

static void readback(struct matches *m, const int *exp, int ne)
{
  struct int_list_reader r;
  int n = 0, v, i;
  CHECK(m->n >= 0 && m->n <= m->max, "posting list stays inside its allocation");
  matches_int_list_reader_init(&r, m);
  for (i = 0; i < ne + 1; i++) {
    if (!int_list_reader_read(&r, &v)) break;
    CHECK(n < ne, "no message number beyond those recorded is read back");
    CHECK(v == exp[n], "each recorded message number is read back unchanged");
    n++;
  }
  CHECK(n == ne, "every recorded message number is read back");
}
static void add(struct matches *m, int v)
{
  check_and_enlarge_encoding(m);
  insert_index_on_encoding(m, v);
}

#if defined(GROW)
/* long lists of mixed step sizes, so that every growth of the buffer happens at
 * every fill level with 1, 2 and 4 byte steps; the last number is arbitrary */
void harness(void)
{
  struct matches m = {0};
  int exp[GROW+14], ne = 0, i, v = 0, n1 = CHOOSE(0, GROW), n2 = CHOOSE(0, 3), n4 = CHOOSE(0, 9), last;
  for (i = 0; i < n1 + n2 + n4; i++) {
    v += i < n1 ? 1 : i < n1 + n2 ? 300 : 70000;
    exp[ne++] = v; add(&m, v);
  }
  last = (int) sym_u32();
  ASSUME(last >= v && last < LIMIT);
  if (!ne || last != v) exp[ne++] = last;
  add(&m, last);
  readback(&m, exp, ne);
  COVER_IF(ne == GROW + 13, "longest list");
  COVER_IF(n4 == 0 && last - v > 20000, "one long step at the end");
}
#elif defined(COPY)
/* a list stored in a database file, loaded back and appended to */
void harness(void)
{
  struct matches m = {0}, c;
  struct int_list_reader r;
  struct read_db db;
  int exp[2*COPY], ne = 0, i, na = CHOOSE(1, COPY), nb = CHOOSE(0, COPY), prev = 0, v;
  unsigned char *file;
  for (i = 0; i < na + nb; i++) {
    if (i == na) {
      /* what the writer stores: the bytes in use, then the terminator */
      file = malloc(8 + m.n + 1);
      memset(file, 0, 8);
      memcpy(file + 8, m.msginfo, m.n);
      file[8 + m.n] = 0xff;
      memset(&db, 0, sizeof db);
      db.data = (char *) file; db.len = 8 + m.n + 1;
      read_db_int_list_reader_init(&r, &db, 8);
      int_list_reader_copy(&r, &c);
      CHECK(c.n == m.n, "the loaded list has the length that was stored");
      m = c;
    }
    v = (int) sym_u32();
    ASSUME(v >= prev && v < LIMIT);
    if (!i || v != prev) exp[ne++] = v;
    prev = v;
    add(&m, v);
  }
  readback(&m, exp, ne);
  if (nb) COVER("appended after loading");
}
#else
void harness(void)
{
  struct matches m = {0};
  int exp[K], ne = 0, i, v, prev = 0;
  for (i = 0; i < K; i++) {
    v = (int) sym_u32();
    ASSUME(v >= prev && v < LIMIT);
    if (!i || v != prev) exp[ne++] = v;
    prev = v;
    add(&m, v);
  }
  readback(&m, exp, ne);
  COVER_IF(ne == K, "all distinct");
  COVER_IF(ne == 1, "all same");
}
#endif
