/* The index file: whatever index is built in memory, writing it and loading it
 * back gives the same messages, folders and word lists, whatever the file held
 * before, and the loaded index can be added to. */
#include "memfile.h"
#include "mairix.h"
#include "reader.h"
#define NTAB 7
static struct toktable *tab(struct database *db, int k)
{ struct toktable *t[6] = { db->to, db->cc, db->from, db->subject, db->body, db->attachment_name }; return t[k]; }
static const char *const texts[NTAB][3] = { {"ta","tbb","tccc"}, {"ca","c","cddd"}, {"fa","f","fqq"}, {"sa","sbb","szz"}, {"ba","bbb","b"}, {"aa","abb","a.c"}, {"ia","i@b","idd"} };
static void small(struct database *db)
{
  int k, i;
  for (k = 0; k < 6; k++) {
    struct toktable *t = tab(db, k);
    t->size = 4; t->mask = 3; t->hwm = 3; t->tokens = malloc(4 * sizeof *t->tokens); for (i = 0; i < 4; i++) t->tokens[i] = NULL;
  }
  db->msg_ids->size = 4; db->msg_ids->mask = 3; db->msg_ids->hwm = 3; db->msg_ids->tokens = malloc(4 * sizeof *db->msg_ids->tokens); for (i = 0; i < 4; i++) db->msg_ids->tokens[i] = NULL;
}
static int has[NTAB+1][3][4];   /* [table][word][message]; row NTAB: own message ids */
static void posting(struct matches *m, const int *e, int n)
{
  struct int_list_reader r; int i, v;
  matches_int_list_reader_init(&r, m);
  for (i = 0; i < n; i++) if (e[i]) { CHECK(int_list_reader_read(&r, &v), "no message of a word's list is lost"); CHECK(v == i, "a word's list keeps its messages"); }
  CHECK(!int_list_reader_read(&r, &v), "no message is added to a word's list");
}
static void check_toks(struct database *b, int nm)
{
  int k, w, i, j;
  for (k = 0; k < NTAB; k++) {
    int size = k < 6 ? tab(b, k)->size : b->msg_ids->size, n = 0, want = 0;
    for (w = 0; w < 3; w++) {
      int any = 0, found = 0;
      for (i = 0; i < nm; i++) any |= has[k][w][i];
      want += any;
      for (j = 0; j < size; j++) {
        if (k < 6) {
          struct token *t = tab(b, k)->tokens[j];
          if (!t) continue;
          if (!w) n++;
          if (strcmp(t->text, texts[k][w])) continue;
          posting(&t->match0, has[k][w], nm); found++;
        } else {
          struct token2 *t = b->msg_ids->tokens[j];
          if (!t) continue;
          if (!w) n++;
          if (strcmp(t->text, texts[k][w])) continue;
          posting(&t->match0, has[k][w], nm); posting(&t->match1, has[NTAB][w], nm); found++;
        }
      }
      CHECK(found == any, "each stored word is found once after loading, and no other");
    }
    CHECK(n == want && (k < 6 ? tab(b, k)->n : b->msg_ids->n) == want, "the number of words is kept");
  }
}
static void put(struct database *db, int k, int w, int m, int own)
{
  char t[8]; strcpy(t, texts[k][w]);
  has[k][w][m] = 1; if (k == 6 && own) has[NTAB][w][m] = 1;
  if (k < 6) add_token_in_file(m, db->hash_key, t, tab(db, k)); else add_token2_in_file(m, db->hash_key, t, db->msg_ids, own);
}
#ifndef NM
#define NM 2
#endif
#define NB 2
void harness(void)
{
  struct database *a = new_database(0x1234567), *b;
  int nm, nb, i, j, k, cnt[NB] = {0}, pm[NM], ft = 0;
  char path[NM][4]; unsigned v[NM][4], mt[NB], ms[NB]; int ty[NM], fl[NM];
  static unsigned st[NB][NM], ln[NB][NM]; static unsigned char ck[NB][NM][16]; int dead[NB];
  char fn[4] = "db";
#ifdef TOKS
  nm = 3; nb = 0;
#else
  nm = CHOOSE(0, NM); nb = CHOOSE(0, NB);
#endif
  small(a);
  a->mboxen = nb ? malloc(nb * sizeof *a->mboxen) : NULL; a->n_mboxen = a->max_mboxen = nb;
  for (i = 0; i < nb; i++) {
    struct mbox *m = &a->mboxen[i];
    memset(m, 0, sizeof *m);
    dead[i] = CHOOSE(0, 1);
    m->path = dead[i] ? NULL : strdup(i ? "n" : "mm");
    m->current_mtime = mt[i] = sym_u32(); m->current_size = ms[i] = sym_u32();
    m->max_msgs = NM; m->start = malloc(NM * sizeof *m->start); m->len = malloc(NM * sizeof *m->len); m->check_all = malloc(NM * sizeof *m->check_all);
  }
  for (i = 0; i < nm; i++) {
    struct msgpath *m;
    maybe_grow_message_arrays(a);
    m = &a->msgs[a->n_msgs]; memset(m, 0, sizeof *m);
#ifdef TOKS
    ty[i] = MTY_FILE;
#else
    ty[i] = CHOOSE(0, 3);
    if (ty[i] == MTY_MBOX && !nb) ty[i] = MTY_FILE;
#endif
    a->type[a->n_msgs++] = ty[i];
    for (j = 0; j < 4; j++) v[i][j] = sym_u32();
    m->date = v[i][2]; m->tid = v[i][3];
#ifdef TOKS
    fl[i] = i;
#else
    fl[i] = sym_range(0, 7);
#endif
    m->seen = fl[i] & 1; m->replied = (fl[i] >> 1) & 1; m->flagged = (fl[i] >> 2) & 1;
    if (ty[i] == MTY_FILE || ty[i] == MTY_IMAP) {
      int l = i + 1 < 3 ? i + 1 : 0;
      for (j = 0; j < l; j++) { path[i][j] = sym_u8(); ASSUME(path[i][j] != 0); }
      path[i][l] = 0;
      m->src.mpf.path = malloc(l + 1); memcpy(m->src.mpf.path, path[i], l + 1); m->src.mpf.mtime = v[i][0]; m->src.mpf.size = v[i][1];
    } else if (ty[i] == MTY_MBOX) {
      struct mbox *mb; pm[i] = CHOOSE(0, nb - 1); mb = &a->mboxen[pm[i]];
      if (dead[pm[i]]) ASSUME(0);
      m->src.mbox.file_index = pm[i]; m->src.mbox.msg_index = cnt[pm[i]];
      mb->start[cnt[pm[i]]] = v[i][0]; mb->len[cnt[pm[i]]] = v[i][1];
      for (j = 0; j < 16; j++) mb->check_all[cnt[pm[i]]][j] = ck[pm[i]][cnt[pm[i]]][j] = sym_u8();
      mb->n_msgs = ++cnt[pm[i]];
    }
  }
#ifdef TOKS
  ft = CHOOSE(0, NTAB - 1);
  for (k = 0; k < NTAB; k++)
    for (j = 0; j < (k == ft ? 3 : 1); j++)
      for (i = 0; i < nm; i++) {
        int own = 0;
        if (k == ft ? !CHOOSE(0, j == 2 && i == 1 ? 0 : 1) : i != 1) continue;
        if (k == 6) own = k == ft && j != 2 ? CHOOSE(0, 1) : 1;
        put(a, k, j, i, own);
      }
#else
  for (k = 0; k < NTAB && nm; k++) put(a, k, 0, nm - 1, 0);
#endif
  mf_exists = CHOOSE(0, 1);
  if (mf_exists) {
    mf_len = CHOOSE(0, 2) * 1600;
    for (i = 0; i < mf_len; i++) mf_data[i] = 0xa5;
  }
#ifndef TOKS
  if (mf_len > 0) COVER("file existed");
#endif
  write_database(a, fn, CHOOSE(0, 1));
  CHECK(mf_fds == 0 && !mf_map, "the file is released after writing");
#ifndef TOKS
  {
    /* what a search sees of each message */
    struct read_db *r = open_db(fn);
    CHECK(r->n_msgs == nm, "a search sees every message");
    for (i = 0; i < nm; i++) {
      CHECK(r->tid_table[i] == v[i][3], "a search sees the thread of each message");
      if (ty[i] == MTY_DEAD) continue;
      CHECK(r->date_table[i] == v[i][2], "a search sees the date of each message");
      CHECK(r->size_table[i] == v[i][1], "a search sees the size of each message");
    }
    close_db(r);
  }
#endif
  b = new_database_from_file(fn, 1);
  CHECK(b->n_msgs == nm && b->n_mboxen == nb && b->hash_key == a->hash_key, "counts and hash key are kept");
  for (i = 0; i < nb; i++) {
    struct mbox *m = &b->mboxen[i];
    CHECK((m->path == NULL) == dead[i], "removed folders stay removed");
    if (!dead[i]) CHECK(!strcmp(m->path, i ? "n" : "mm"), "folder names are kept");
    CHECK(m->file_mtime == mt[i] && m->file_size == ms[i] && m->n_msgs == cnt[i], "folder details are kept");
    for (j = 0; j < cnt[i]; j++) CHECK(!memcmp(m->check_all[j], ck[i][j], 16), "message checksums are kept");
  }
  for (i = 0; i < nm; i++) {
    struct msgpath *m = &b->msgs[i];
    CHECK(b->type[i] == ty[i] && (unsigned) m->tid == v[i][3], "kind and thread of each message are kept");
    CHECK(m->seen == (fl[i] & 1) && m->replied == ((fl[i] >> 1) & 1) && m->flagged == ((fl[i] >> 2) & 1), "message flags are kept");
    if (ty[i] != MTY_DEAD) CHECK(m->date == v[i][2], "message dates are kept");
    if (ty[i] == MTY_FILE || ty[i] == MTY_IMAP) {
      for (j = 0; path[i][j]; j++) CHECK(m->src.mpf.path[j] == path[i][j], "message paths are kept");
      CHECK(m->src.mpf.path[j] == 0, "message paths are kept");
    }
    if (ty[i] == MTY_FILE) CHECK(m->src.mpf.mtime == v[i][0] && m->src.mpf.size == v[i][1], "file details are kept");
    if (ty[i] == MTY_MBOX) {
      CHECK(m->src.mbox.file_index == pm[i] && m->src.mbox.msg_index == a->msgs[i].src.mbox.msg_index, "place of each folder message is kept");
      CHECK(b->mboxen[pm[i]].start[m->src.mbox.msg_index] == v[i][0] && b->mboxen[pm[i]].len[m->src.mbox.msg_index] == v[i][1], "extent of each folder message is kept");
    }
  }
  check_toks(b, nm);
  /* the loaded index is added to as if it had never been stored */
  maybe_grow_message_arrays(b);
  CHECK(b->max_msgs > nm, "there is room for another message");
  memset(&b->msgs[nm], 0, sizeof b->msgs[nm]);
#ifdef TOKS
  j = CHOOSE(0, 2);
  put(b, ft, j, nm, 1);
  check_toks(b, nm + 1);
  COVER_IF(ft == 6, "message ids");
  COVER_IF(j == 1, "word added");
#else
  if (nm) { COVER_IF(ty[0] == MTY_MBOX, "mbox message"); COVER_IF(ty[0] == MTY_IMAP, "imap message"); COVER_IF(ty[0] == MTY_DEAD, "dead message"); }
  OBSERVE(mf_len);
#endif
}
