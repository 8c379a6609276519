/* Build the byte image of an index file, laid out as reader.h describes. */
#ifndef DBIMG_H
#define DBIMG_H
#include "reader.h"
static unsigned char *im_d; static unsigned im_n, im_cap;
static VH_UNUSED void im_new(unsigned cap)
{
  unsigned i;
  im_d = malloc(cap); memset(im_d, 0, cap); im_cap = cap; im_n = UC_HEADER_LEN;
  im_d[0] = HEADER_MAGIC0; im_d[1] = HEADER_MAGIC1; im_d[2] = HEADER_MAGIC2; im_d[3] = HEADER_MAGIC3;
  ((unsigned *) im_d)[UI_ENDIAN] = 0x44332211;
  for (i = 0; i < 7; i++) ; 
}
static VH_UNUSED unsigned *im_ui(unsigned k) { return (unsigned *) im_d + k; }
static VH_UNUSED void im_align(void) { im_n = (im_n + 3) & ~3u; }
/* a table of n words; returns its word offset, also stored in header slot */
static VH_UNUSED unsigned *im_table(unsigned slot, unsigned n)
{ unsigned o; im_align(); o = im_n >> 2; *im_ui(slot) = o; im_n += 4*n; return im_ui(o); }
static VH_UNUSED unsigned im_bytes(const void *p, unsigned n)
{ unsigned o = im_n; memcpy(im_d + im_n, p, n); im_n += n; return o; }
static VH_UNUSED unsigned im_str(const char *s) { return im_bytes(s, strlen(s) + 1); }
/* a posting list for the message numbers with member[i] != 0 (concrete) */
static VH_UNUSED unsigned im_posting(const int *member, int n)
{
  unsigned o = im_n; int i, last = 0, any = 0;
  for (i = 0; i < n; i++) if (member[i]) { im_d[im_n++] = any ? i - last : i; last = i; any = 1; }
  im_d[im_n++] = 0xff;
  return o;
}
static VH_UNUSED void im_msgs(int n)
{
  *im_ui(UI_N_MSGS) = n;
  im_align(); *im_ui(UI_MSG_TYPE_AND_FLAGS) = im_n; im_n += n;
  im_table(UI_MSG_CDATA, n); im_table(UI_MSG_MTIME, n); im_table(UI_MSG_SIZE, n); im_table(UI_MSG_DATE, n); im_table(UI_MSG_TID, n);
}
#define IM_TYPE(i) im_d[*im_ui(UI_MSG_TYPE_AND_FLAGS) + (i)]
#define IM_MSG(slot, i) *im_ui(*im_ui(slot) + (i))
static VH_UNUSED void im_mboxen(int n)
{
  *im_ui(UI_MBOX_N) = n;
  im_table(UI_MBOX_PATHS, n); im_table(UI_MBOX_ENTRIES, n); im_table(UI_MBOX_MTIME, n); im_table(UI_MBOX_SIZE, n); im_table(UI_MBOX_CKSUM, n);
}
/* token table slots: base+0 count, +1 token offsets, +2 encodings, (+3 second encodings) */
static VH_UNUSED void im_toks(unsigned base, int n, int two)
{ *im_ui(base) = n; im_table(base + 1, n); im_table(base + 2, n); if (two) im_table(base + 3, n); }
#define IM_TOK(base, i) *im_ui(*im_ui((base) + 1) + (i))
#define IM_ENC(base, i) *im_ui(*im_ui((base) + 2) + (i))
#define IM_ENC1(base, i) *im_ui(*im_ui((base) + 3) + (i))
/* every table empty, at the current position */
static VH_UNUSED void im_empty_toks(void)
{
  im_toks(UI_TO_BASE, 0, 0); im_toks(UI_CC_BASE, 0, 0); im_toks(UI_FROM_BASE, 0, 0); im_toks(UI_SUBJECT_BASE, 0, 0);
  im_toks(UI_BODY_BASE, 0, 0); im_toks(UI_ATTACHMENT_NAME_BASE, 0, 0); im_toks(UI_MSGID_BASE, 0, 1);
}
#endif
