/* Run the real search entry point on an in-memory index image and capture what
 * it prints.  Message i has the path "p<i>", so the output of a listing search
 * names exactly the messages it reports, in order. */
#ifndef SRCH_H
#define SRCH_H
#define VH_FILES
#define VH_STDOUT
#include "vh.h"
#include "vhsys.h"
#undef open
#undef close
#undef fstat
#undef read
#undef write
#undef mmap
#undef munmap
#undef printf
#include <stdarg.h>
#include "mairix.h"
#include "dbimg.h"
int vh_open(const char *path, int flags, ...) { return 7; }
int vh_close(int fd) { return 0; }
int vh_fstat(int fd, struct stat *sb) { memset(sb, 0, sizeof *sb); sb->st_size = im_n; sb->st_mode = S_IFREG; return 0; }
static unsigned char *vh_map;
void *vh_mmap(void *a, size_t len, int prot, int flags, int fd, off_t off)
{ vh_map = malloc(im_n); memcpy(vh_map, im_d, im_n); CHECK(len == im_n, "the whole index file is mapped"); return vh_map; }
int vh_munmap(void *a, size_t len) { free(a); return 0; }
#define OUTMAX 512
static char vh_out[OUTMAX]; static int vh_outn;
int vh_printf(const char *fmt, ...)
{ va_list ap; int n; va_start(ap, fmt); n = vsnprintf(vh_out + vh_outn, OUTMAX - vh_outn, fmt, ap); va_end(ap); vh_outn += n; return n; }
int vh_puts(const char *s) { return vh_printf("%s\n", s); }
int vh_putchar(int c) { return vh_printf("%c", c); }
/* an image with nm file messages "p0".."p<nm-1>" */
static VH_UNUSED void srch_msgs(int nm)
{
  int i; char nmbuf[4] = "p0";
  im_msgs(nm);
  for (i = 0; i < nm; i++) {
    nmbuf[1] = '0' + i;
    IM_TYPE(i) = DB_MSG_FILE; IM_MSG(UI_MSG_TID, i) = i; IM_MSG(UI_MSG_CDATA, i) = im_str(nmbuf); IM_MSG(UI_MSG_DATE, i) = 1000 + i; IM_MSG(UI_MSG_SIZE, i) = 100;
  }
}
#define MAXM 8
static int got[MAXM], order[MAXM], ngot, status;
/* run a listing search; fills got[i] (reported?) and order[] */
static VH_UNUSED void srch_run(char **argv, int threads, int sorted, int nm)
{
  int i, p = 0;
  char *folder = malloc(4); memcpy(folder, "mf", 3);
  vh_outn = 0; ngot = 0;
  for (i = 0; i < MAXM; i++) got[i] = 0;
  status = search_top(threads, 0, "db", folder, argv, FT_RAW, 0, NULL, NULL, NULL, NULL, sorted);
  while (p < vh_outn) {
    int in_mbox = vh_outn - p > 5 && !memcmp(vh_out + p, "mbox:", 5); if (in_mbox) p += 5;
    if (p + 3 < vh_outn && vh_out[p+2] == 'w') { vh_out[p+2] = vh_out[p+1]; vh_out[p+1] = vh_out[p]; p++; } /* "p<i>w" */
    CHECK(p + 2 < vh_outn && vh_out[p] == 'p' && vh_out[p+2] == (in_mbox ? ' ' : '\n') && vh_out[p+1] >= '0' && vh_out[p+1] < '0' + nm, "each output line is the path of an indexed message");
    i = vh_out[p+1] - '0';
    CHECK(!got[i], "no message is reported twice");
    CHECK(ngot < nm, "no more messages are reported than exist");
    got[i] = 1; order[ngot++] = i; p += 3;
    if (in_mbox) { while (p < vh_outn && vh_out[p] != '\n') p++; p++; }
  }
  CHECK((status == 0) == (ngot > 0), "exit status says whether anything matched");
}
#endif
