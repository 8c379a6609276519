/* Purging: removed messages disappear, everything about the others survives
 * under their new numbers, and the word tables still work afterwards. */
#define VH_FILES
#include "vh.h"
#include "mairix.h"
#include "reader.h"
#ifndef NM
#define NM 3
#endif
#ifndef NW
#define NW 3
#endif
static unsigned hv[NW+1];
unsigned int hashfn(unsigned char *k, unsigned int length, unsigned int initval)
{ CHECK(length == 1 && k[0] >= 'a' && k[0] <= 'a' + NW, "only the words themselves are hashed"); return hv[k[0] - 'a']; }
static struct toktable *tab(struct database *db, int k)
{ struct toktable *t[6] = { db->to, db->cc, db->from, db->subject, db->body, db->attachment_name }; return t[k]; }
static int has[NW+1][NM+1], own[NW+1][NM+1];
static void posting(struct matches *m, const int *e, const int *nidx, int n)
{
  struct int_list_reader r; int i, v;
  matches_int_list_reader_init(&r, m);
  for (i = 0; i < n; i++) if (e[i] && nidx[i] >= 0) { CHECK(int_list_reader_read(&r, &v), "no remaining message of a word's list is lost"); CHECK(v == nidx[i], "a word's list names its messages by their new numbers"); }
  CHECK(!int_list_reader_read(&r, &v), "a word's list names no other message");
}
static void add(struct database *db, int k, int w, int m, int own1)
{ char t[2] = { 'a' + w, 0 }; if (k < 6) add_token_in_file(m, 5, t, tab(db, k)); else add_token2_in_file(m, 5, t, db->msg_ids, own1); }
#ifdef WORDS
/* which message numbers, which messages are gone and how words hash: all solver variables */
void harness(void)
{
  struct database *db = new_database(5);
  int k = CHOOSE(0, 1) ? 6 : 4, i, j, w, ty[NM], live[NM+1], newno[NM+1], nl[NW], l[NW][3], nlive = 0, want = 0, size, nw = CHOOSE(1, NW), x;
  if (k < 6) { struct toktable *t = tab(db, k); t->size = 8; t->mask = 7; t->hwm = 7; t->tokens = malloc(8 * sizeof *t->tokens); for (i = 0; i < 8; i++) t->tokens[i] = NULL; }
  else { struct toktable2 *t = db->msg_ids; t->size = 8; t->mask = 7; t->hwm = 7; t->tokens = malloc(8 * sizeof *t->tokens); for (i = 0; i < 8; i++) t->tokens[i] = NULL; }
  for (i = 0; i < NM; i++) {
    maybe_grow_message_arrays(db);
    memset(&db->msgs[i], 0, sizeof db->msgs[i]);
    live[i] = sym_bool(); newno[i] = nlive; nlive += live[i];
    db->type[i] = live[i] ? MTY_FILE : MTY_DEAD; db->msgs[i].src.mpf.path = "p"; db->msgs[i].date = i;
  }
  db->n_msgs = NM;
  for (w = 0; w < nw; w++) {
    { static const unsigned bk[3] = { 0, 6, 7 }; hv[w] = (sym_u32() & ~7u) | bk[CHOOSE(0, 2)]; }
    nl[w] = CHOOSE(1, 2);
    for (j = 0; j < nl[w]; j++) {
      l[w][j] = sym_range(j ? l[w][j-1] + 1 : 0, NM - 1);
      add(db, k, w, l[w][j], j == 0);
    }
  }
  cull_dead_messages(db, 0);
  CHECK(db->n_msgs == nlive, "exactly the removed messages are purged");
  for (i = 0; i < NM; i++) if (live[i]) CHECK(db->msgs[newno[i]].date == i, "remaining messages keep their order");
  live[NM] = 1; newno[NM] = nlive;
  w = CHOOSE(0, nw - 1);
  add(db, k, w, nlive, 1); l[w][nl[w]++] = NM;
  size = k < 6 ? tab(db, k)->size : db->msg_ids->size;
  for (x = 0; x < nw; x++) {
    int found = 0, any = 0;
    for (j = 0; j < nl[x]; j++) any = vor(any, live[l[x][j]]);
    want += any;
    for (j = 0; j < size; j++) {
      struct token *t = k < 6 ? tab(db, k)->tokens[j] : NULL; struct token2 *t2 = k < 6 ? NULL : db->msg_ids->tokens[j];
      struct int_list_reader r; int q, v;
      if (!t && !t2) continue;
      if ((t ? t->text[0] : t2->text[0]) != 'a' + x) continue;
      found++;
      matches_int_list_reader_init(&r, t ? &t->match0 : &t2->match0);
      for (q = 0; q < nl[x]; q++) if (live[l[x][q]]) { CHECK(int_list_reader_read(&r, &v), "no remaining message of a word's list is lost"); CHECK(v == newno[l[x][q]], "a word's list names its messages by their new numbers"); }
      CHECK(!int_list_reader_read(&r, &v), "a word's list names no other message");
      if (t2) {
        matches_int_list_reader_init(&r, &t2->match1);
        for (q = 0; q < nl[x]; q++) if (vor(q == 0, l[x][q] == NM) && live[l[x][q]]) { CHECK(int_list_reader_read(&r, &v), "no remaining message with an id is lost"); CHECK(v == newno[l[x][q]], "an id names its message by its new number"); }
        CHECK(!int_list_reader_read(&r, &v), "an id names no other message");
      }
    }
    CHECK(found == any, "a word of a remaining message keeps exactly one entry, other words go");
  }
  CHECK((k < 6 ? tab(db, k)->n : db->msg_ids->n) == want, "the number of words is right");
  COVER_IF(nlive == 0, "all gone");
  COVER_IF(nlive == NM - 1, "one gone");
}
#else
void harness(void)
{
  struct database *db = new_database(5);
  int k, i, j, w, nb = 0, nlive = 0, nidx[NM+1], ty[NM], mb[NM], bdead[2], bidx[2], want, n, size, any; unsigned v[NM][4];
  k = CHOOSE(0, 6); nb = 2;
  for (j = 0; j < 7; j++)
    if (j < 6) { struct toktable *t = tab(db, j); t->size = 8; t->mask = 7; t->hwm = 7; t->tokens = malloc(8 * sizeof *t->tokens); for (i = 0; i < 8; i++) t->tokens[i] = NULL; }
    else { struct toktable2 *t = db->msg_ids; t->size = 8; t->mask = 7; t->hwm = 7; t->tokens = malloc(8 * sizeof *t->tokens); for (i = 0; i < 8; i++) t->tokens[i] = NULL; }
  db->mboxen = nb ? malloc(nb * sizeof *db->mboxen) : NULL; db->n_mboxen = db->max_mboxen = nb;
  for (i = 0; i < nb; i++) {
    struct mbox *b = &db->mboxen[i]; memset(b, 0, sizeof *b);
    bdead[i] = CHOOSE(0, 1); b->path = bdead[i] ? NULL : strdup(i ? "n" : "m"); b->current_mtime = 10 + i; b->current_size = 20 + i; b->n_msgs = 5 + i;
  }
  bidx[0] = 0; bidx[1] = nb ? !bdead[0] : 0;
  for (i = 0; i < NM; i++) {
    struct msgpath *m;
    maybe_grow_message_arrays(db);
    m = &db->msgs[db->n_msgs]; memset(m, 0, sizeof *m);
    for (j = 0; j < 4; j++) v[i][j] = sym_u32();
    m->date = v[i][2]; m->tid = v[i][3]; m->seen = v[i][2] & 1; m->flagged = (v[i][2] >> 1) & 1; m->replied = (v[i][2] >> 2) & 1;
    ty[i] = CHOOSE(0, 3);
    db->type[db->n_msgs++] = ty[i];
    if (ty[i] == MTY_FILE || ty[i] == MTY_IMAP) { char p[3] = "p0"; p[1] += i; m->src.mpf.path = strdup(p); m->src.mpf.mtime = v[i][0]; m->src.mpf.size = v[i][1]; }
    else if (ty[i] == MTY_MBOX) { mb[i] = CHOOSE(0, 1); if (bdead[mb[i]]) ASSUME(0); m->src.mbox.file_index = mb[i]; m->src.mbox.msg_index = i; }
    nidx[i] = ty[i] == MTY_DEAD ? -1 : nlive++;
  }
  for (w = 0; w < NW; w++) {
    hv[w] = 6;
    any = 0;
    for (i = 0; i < NM; i++) {
      has[w][i] = (i + w) & 1;
      any |= has[w][i];
      if (!has[w][i]) continue;
      own[w][i] = k == 6 && w < 2 ? CHOOSE(0, 1) : 0;
      add(db, k, w, i, own[w][i]);
    }
  }
  n = cull_dead_messages(db, 0);
  CHECK(!!n == (nlive < NM), "purging says whether it removed anything");
  CHECK(db->n_msgs == nlive, "exactly the removed messages are purged");
  for (i = 0; i < NM; i++) {
    struct msgpath *m = &db->msgs[nidx[i] < 0 ? 0 : nidx[i]];
    if (nidx[i] < 0) continue;
    CHECK(db->type[nidx[i]] == ty[i] && m->date == v[i][2] && (unsigned) m->tid == v[i][3] && m->seen == (v[i][2] & 1) && m->flagged == ((v[i][2] >> 1) & 1) && m->replied == ((v[i][2] >> 2) & 1), "details of the remaining messages are kept");
    if (ty[i] == MTY_MBOX) CHECK(m->src.mbox.file_index == bidx[mb[i]] && m->src.mbox.msg_index == i, "remaining folder messages point at their folder's new place");
    else CHECK(m->src.mpf.path[0] == 'p' && m->src.mpf.path[1] == '0' + i && m->src.mpf.mtime == v[i][0] && m->src.mpf.size == v[i][1], "paths of the remaining messages are kept");
  }
  for (i = 0, n = 0; i < nb; i++) if (!bdead[i]) n++;
  CHECK(db->n_mboxen == n, "folders no longer present are dropped, others kept");
  for (i = 0; i < nb; i++) if (!bdead[i]) CHECK(db->mboxen[bidx[i]].path[0] == (i ? 'n' : 'm') && db->mboxen[bidx[i]].n_msgs == 5 + i && db->mboxen[bidx[i]].current_mtime == 10 + i && db->mboxen[bidx[i]].current_size == 20 + i, "details of the remaining folders are kept");
  /* a new message with one of the words, then every word is looked at */
  nidx[NM] = nlive;
  w = CHOOSE(0, NW - 1);
  add(db, k, w, nlive, k == 6); has[w][NM] = 1; own[w][NM] = 1;
  size = k < 6 ? tab(db, k)->size : db->msg_ids->size;
  for (w = 0, want = 0; w < NW; w++) {
    int found = 0;
    for (i = 0, any = 0; i <= NM; i++) if (has[w][i] && nidx[i] >= 0) any = 1;
    want += any;
    for (j = 0; j < size; j++) {
      struct token *t = k < 6 ? tab(db, k)->tokens[j] : NULL; struct token2 *t2 = k < 6 ? NULL : db->msg_ids->tokens[j];
      if (!t && !t2) continue;
      if ((t ? t->text[0] : t2->text[0]) != 'a' + w) continue;
      found++;
      posting(t ? &t->match0 : &t2->match0, has[w], nidx, NM + 1);
      if (t2) posting(&t2->match1, own[w], nidx, NM + 1);
    }
    CHECK(found == any, "a word of a remaining message keeps exactly one entry, other words go");
  }
  CHECK((k < 6 ? tab(db, k)->n : db->msg_ids->n) == want, "the number of words is right");
  OBSERVE(nlive); OBSERVE(want);
  COVER_IF(nlive == 0, "all gone");
  COVER_IF(nlive == NM - 1 && nidx[0] < 0, "first gone");
}
#endif
