/* Opening an index file with an arbitrary header: refused, or all tables lie
 * inside the file. */
#ifdef WORDS
/* Looking up words in an index whose word tables point anywhere. */
#include "srch.h"
static const unsigned base[7] = { UI_TO_BASE, UI_CC_BASE, UI_FROM_BASE, UI_SUBJECT_BASE, UI_BODY_BASE, UI_ATTACHMENT_NAME_BASE, UI_MSGID_BASE };
void harness(void)
{
  static char *const q[7] = { "t:w", "c:w", "f:w", "s:w", "b:w", "n:w", "m:w" };
  char a[8], *argv[2] = { a, NULL }; int t = CHOOSE(0, 6), i, sub = CHOOSE(0, 1), enc = CHOOSE(0, 1), ng; unsigned at = sym_u32();
  strcpy(a, q[t]); if (sub && t != 6) { strcat(a, "="); if (sym_bool()) strcat(a, "4"); }
  im_new(1024);
  srch_msgs(2); im_mboxen(0); im_empty_toks();
  im_toks(base[t], 1, t == 6);
  IM_TOK(base[t], 0) = im_str("w"); i = im_bytes("\377", 1); IM_ENC(base[t], 0) = i; if (t == 6) IM_ENC1(base[t], 0) = i;
  for (i = 0; i < 4; i++) { im_d[im_n++] = sym_u8(); if (enc) ASSUME((im_d[im_n-1] == 0) | (im_d[im_n-1] == 0xff)); /* a list with messages that are not there: stopped by assert */ }
  if (at < (unsigned) im_n) { ASSUME(at >= (unsigned) im_n - 5); at = CONCRETE(at); COVER("near the end"); } else COVER("beyond the end");
  if (enc) { if (t == 6) IM_ENC1(base[t], 0) = at; else IM_ENC(base[t], 0) = at; } else IM_TOK(base[t], 0) = at;
  srch_run(argv, 0, 0, 2);
  ng = got[0] + got[1];
  OBSERVE(ng);
  if (ng) COVER("found");
}
#else
#define VH_FILES
#include "vh.h"
#include "vhsys.h"
#include "memfile.h"
#include "mairix.h"
#include "reader.h"
static unsigned flen;
static int in(const void *p, const struct read_db *r, unsigned long n, unsigned w)
{ unsigned long o = (unsigned long) ((const char *) p - r->data); return vand(o <= flen, n * w <= flen - o); }
static void tok(const struct toktable_db *t, const struct read_db *r)
{ CHECK(in(t->tok_offsets, r, t->n, 4) && in(t->enc_offsets, r, t->n, 4), "word tables of an accepted index lie inside the file"); }
#ifdef LIST
void harness(void)
{
  struct read_db r; struct int_list_reader l; unsigned n = CHOOSE(0, LIST), i; int v, last = 0, k = 0; unsigned long at = sym_u32();
  memset(&r, 0, sizeof r);
  r.len = n; r.data = (char *) sym_block(n); flen = n;
  ASSUME(n > 0);
  if (at < n) at = CONCRETE(at);
  read_db_int_list_reader_init(&l, &r, at);
  while (int_list_reader_read(&l, &v)) { k++; CHECK(k <= (int) n, "a list has no more entries than bytes"); last = v; }
  CHECK(at < n || k == 0, "a list beyond the end of the file is empty");
  OBSERVE(last);
  COVER_IF(k > 1, "accepted");
}
#else
void harness(void)
{
  static const unsigned lens[] = { 0, 1, 159, 160, 200, 1000 };
  unsigned i, good; struct read_db *r; unsigned *u;
  flen = lens[CHOOSE(0, 5)];
  mf_exists = 1; mf_len = flen;
#ifdef MAGIC
  for (i = 0; i < flen && i < 8; i++) mf_data[i] = sym_u8();
  good = flen >= 160;
  if (good) good = vand(vand(mf_data[0] == HEADER_MAGIC0, mf_data[1] == HEADER_MAGIC1), vand(mf_data[2] == HEADER_MAGIC2, mf_data[3] == HEADER_MAGIC3));
  if (flen >= 160) good = vand(good, *(unsigned *) (mf_data + 4) == 0x44332211);
#else
  ASSUME(flen >= 160);
  mf_data[0] = HEADER_MAGIC0; mf_data[1] = HEADER_MAGIC1; mf_data[2] = HEADER_MAGIC2; mf_data[3] = HEADER_MAGIC3;
  u = (unsigned *) mf_data; u[UI_ENDIAN] = 0x44332211; good = 1;
  for (i = LO; i <= HI; i++) u[i] = sym_u32();
#endif
  r = open_db("i");
  CHECK(good, "a file that is no index of this version and byte order is refused");
  if (!r) return;
  CHECK(r->n_msgs >= 0 && in(r->msg_type_and_flags, r, r->n_msgs, 1), "message tables of an accepted index lie inside the file");
  CHECK(in(r->path_offsets, r, r->n_msgs, 4) && in(r->mtime_table, r, r->n_msgs, 4) && in(r->size_table, r, r->n_msgs, 4) && in(r->date_table, r, r->n_msgs, 4) && in(r->tid_table, r, r->n_msgs, 4), "message tables of an accepted index lie inside the file");
  CHECK(r->n_mboxen >= 0 && in(r->mbox_paths_table, r, r->n_mboxen, 4) && in(r->mbox_entries_table, r, r->n_mboxen, 4) && in(r->mbox_mtime_table, r, r->n_mboxen, 4) && in(r->mbox_size_table, r, r->n_mboxen, 4) && in(r->mbox_checksum_table, r, r->n_mboxen, 4), "mailbox tables of an accepted index lie inside the file");
  tok(&r->to, r); tok(&r->cc, r); tok(&r->from, r); tok(&r->subject, r); tok(&r->body, r); tok(&r->attachment_name, r);
  CHECK(in(r->msg_ids.tok_offsets, r, r->msg_ids.n, 4) && in(r->msg_ids.enc0_offsets, r, r->msg_ids.n, 4) && in(r->msg_ids.enc1_offsets, r, r->msg_ids.n, 4), "thread tables of an accepted index lie inside the file");
  COVER("accepted");
}
#endif
#endif
