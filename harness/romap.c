/* Reading mail files, plain and compressed, in any order. */
#define VH_FILES
#define VH_NAMES
#define VH_STDIO
#include "vh.h"
#include "vhsys.h"
#undef open
#undef close
#undef mmap
#undef munmap
#undef stat
#undef fopen
#undef fclose
#undef fwrite
#undef fprintf
#undef tmpfile
#undef fileno
#include <zlib.h>
#include <bzlib.h>
#include <lzma.h>
#include "mairix.h"
#ifndef FAULTS
#define FAULTS 0
#endif
enum { NFILE = 6, TMP = 20 };
static const char *fname[NFILE] = { "p", "x.gz", "y.bz2", "z.xz", "q.gz2", "w.GZ" };
static char text[NFILE][3]; static int tlen[NFILE]; static int bad[NFILE], big[NFILE];
static int comp(int f) { return f == 1 || f == 2 || f == 3 || f == 5; }
static int file_of(const char *p) { int i; for (i = 0; i < NFILE; i++) if (!strcmp(p, fname[i])) return i; CHECK(0, "only the file asked for is read"); return 0; }
static int faulted, faultat = -1, ncalls;
static int fault(void) { if (FAULTS && ncalls++ == faultat) { faulted = 1; return 1; } return 0; }
int vh_stat(const char *p, struct stat *sb) { int f = file_of(p); memset(sb, 0, sizeof *sb); if (fault()) return -1; sb->st_mode = S_IFREG; sb->st_size = comp(f) ? 2 : tlen[f]; return 0; }
static int fds;
int vh_open(const char *p, int flags, ...) { int f = file_of(p); if (fault()) return -1; CHECK(!(flags & (O_WRONLY | O_RDWR | O_TRUNC)), "mail is never written"); fds++; return 3 + f; }
int vh_close(int fd) { fds--; return 0; }
/* the temporary file of a decompression; only its beginning is kept */
static char tmp[3]; static long tmpn; static int tmpopen, tmpfiles; static char tmpf;
static struct { unsigned char *p; size_t len; } maps[8]; static int nmaps;
void *vh_mmap(void *a, size_t len, int prot, int flags, int fd, off_t off)
{
  unsigned char *m; size_t i;
  CHECK(len > 0 && off == 0 && !(prot & PROT_WRITE), "files are mapped whole, for reading");
  if (fault()) return MAP_FAILED;
  m = malloc(len);
  if (fd == TMP) { CHECK(tmpopen && (long) len <= tmpn, "no more is mapped than was decompressed"); for (i = 0; i < len && i < 3; i++) m[i] = tmp[i]; }
  else { int f = fd - 3; CHECK(fd >= 3 && f < NFILE && fds > 0, "open files are mapped"); if (comp(f)) { m[0] = 'C'; m[1] = '0' + f; } else for (i = 0; i < len; i++) m[i] = text[f][i]; }
  maps[nmaps].p = m; maps[nmaps++].len = len; CHECK(nmaps < 8, "mappings are released");
  return m;
}
int vh_munmap(void *a, size_t len)
{ int i; for (i = 0; i < nmaps; i++) if (maps[i].p == a) { CHECK(maps[i].len == len, "mappings are released whole"); free(a); maps[i] = maps[--nmaps]; return 0; } CHECK(0, "only mappings that exist are released"); return -1; }
FILE *vh_tmpfile(void) { if (fault()) return NULL; CHECK(!tmpopen, "one temporary file at a time"); tmpopen = 1; tmpn = 0; return (FILE *) &tmpf; }
int vh_fileno(FILE *f) { CHECK(f == (FILE *) &tmpf && tmpopen, "the temporary file"); return TMP; }
int vh_fclose(FILE *f) { CHECK(f == (FILE *) &tmpf && tmpopen, "closed once"); tmpopen = 0; return 0; }
FILE *vh_fopen(const char *p, const char *m) { CHECK(0, "no other files"); return NULL; }
int vh_fputc(int c, FILE *f) { return c; }
int vh_fputs(const char *s, FILE *f) { return 0; }
char *vh_fgets(char *s, int n, FILE *f) { return NULL; }
int vh_fprintf(FILE *f, const char *fmt, ...) { return 0; }
size_t vh_fwrite(const void *p, size_t sz, size_t n, FILE *f)
{
  size_t i, t = sz * n;
  CHECK(f == (FILE *) &tmpf && tmpopen, "the temporary file");
  if (t > 0x10000000) return 0; /* more than there is: the system refuses */
  if (fault()) return 0;
  for (i = 0; i < t && tmpn + i < 3; i++) tmp[tmpn + i] = ((const char *) p)[i];
  tmpn += t; return sz ? n : 0;
}
/* decompressors: the text, perhaps after 8 MB, and perhaps an error */
static struct z { int f, pos, open; } z[2];
static struct z *zopen(const char *p) { int f = file_of(p), k = z[0].open; if (fault()) return NULL; CHECK(k < 2, "closed after use"); z[k].f = f; z[k].pos = 0; z[k].open = 1; return &z[k]; }
static int zread(struct z *s, void *buf, int len)
{
  int i, n;
  CHECK(s->open, "an open file is read");
  if (bad[s->f] && s->pos >= bad[s->f] - 1) return -1;
  if (big[s->f] && s->pos < tlen[s->f]) { for (i = 0; i < tlen[s->f]; i++) ((char *) buf)[i] = text[s->f][i]; s->pos = tlen[s->f] + 1; return len; }
  if (big[s->f]) { if (s->pos == tlen[s->f] + 1) { s->pos++; ((char *) buf)[0] = 'e'; return 1; } return bad[s->f] ? -1 : 0; }
  n = tlen[s->f] - s->pos;
  for (i = 0; i < n; i++) ((char *) buf)[i] = text[s->f][s->pos + i];
  s->pos += n;
  return n;
}
gzFile gzopen(const char *p, const char *m) { return (gzFile) zopen(p); }
int gzread(gzFile f, voidp buf, unsigned len) { return zread((struct z *) f, buf, len); }
int gzclose(gzFile f) { ((struct z *) f)->open = 0; return 0; }
BZFILE *BZ2_bzopen(const char *p, const char *m) { return (BZFILE *) zopen(p); }
int BZ2_bzread(BZFILE *f, void *buf, int len) { return zread((struct z *) f, buf, len); }
void BZ2_bzclose(BZFILE *f) { ((struct z *) f)->open = 0; }
static struct z lz;
lzma_ret lzma_stream_decoder(lzma_stream *s, uint64_t m, uint32_t fl) { if (fault()) return LZMA_MEM_ERROR; lz.open = 1; lz.pos = 0; lz.f = 3; return LZMA_OK; }
lzma_ret lzma_code(lzma_stream *s, lzma_action a)
{
  int n;
  CHECK(s->total_in || (s->avail_in == 2 && s->next_in[0] == 'C' && s->next_in[1] == '3'), "the compressed file is decompressed");
  n = zread(&lz, s->next_out, s->avail_out);
  s->next_in += s->avail_in; s->total_in += s->avail_in; s->avail_in = 0;
  if (n < 0) return LZMA_DATA_ERROR;
  s->next_out += n; s->avail_out -= n; return LZMA_OK;
}
void lzma_end(lzma_stream *s) { lz.open = 0; }
void harness(void)
{
  int i, j, k, f[STEPS], ok; unsigned char *d; int len;
  if (FAULTS) faultat = sym_range(0, 40);
  for (k = 0; k < STEPS; k++) f[k] = CHOOSE(0, NFILE - 1);
  for (i = 0; i < NFILE; i++) {
    for (k = 0; k < STEPS && f[k] != i; k++) ; if (k == STEPS) continue;
    if (comp(i)) { big[i] = CHOOSE(0, BIG); bad[i] = sym_range(0, BIG ? 2 : 1); if (big[i] && bad[i]) bad[i] += 2; }
    tlen[i] = big[i] ? 2 : sym_range(0, 2);
    if (bad[i] == 2 && tlen[i] == 0) return;
    for (j = 0; j < tlen[i]; j++) text[i][j] = sym_u8();
  }
  for (k = 0; k < STEPS; k++) {
    int g = f[k], had = faulted;
    d = (unsigned char *) "?"; len = 77;
    create_ro_mapping(fname[g], &d, &len, MAP_DECOMPRESS_IF_APPLICABLE);
    CHECK(!tmpopen && !fds, "files are closed after use");
    ok = tlen[g] && !bad[g];
    if (faulted == had) CHECK(!ok || d != NULL, "a mail file is read");
    if (!d) { CHECK((len == 0) == (tlen[g] == 0 && !bad[g] && faulted == had) || (tlen[g] == 0 && !bad[g]), "what cannot be read is not taken for empty"); COVER_IF(bad[g], "corrupt"); continue; }
    CHECK(tlen[g] != 0, "there is nothing in an empty file");
    if (!bad[g]) CHECK(len == tlen[g] + (big[g] ? 8 * 1024 * 1024 + 1 - tlen[g] : 0), "a mail file is read to its end");
    if (bad[g] < 3) CHECK(!bad[g] || len <= tlen[g], "what is read is from the file");
    for (j = 0; j < tlen[g] && j < len; j++) CHECK(d[j] == (unsigned char) text[g][j], "what is read is the text of the file");
    if (comp(g)) { COVER("decompressed"); for (j = 0; j < k; j++) if (f[j] == g) COVER("decompressed before"); }
    free_ro_mapping(d, len);
  }
}
