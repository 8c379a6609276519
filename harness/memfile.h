/* One regular file held in memory, behind the file calls of the code under
 * test.  Reads beyond the end fail, growing leaves zeros. */
#ifndef MEMFILE_H
#define MEMFILE_H
#define VH_FILES
#include "vh.h"
#include "vhsys.h"
#undef open
#undef close
#undef fstat
#undef ftruncate
#undef lseek
#undef read
#undef write
#undef mmap
#undef munmap
#undef fsync
#ifndef MF_MAX
#define MF_MAX 4096
#endif
static unsigned char mf_data[MF_MAX]; static long mf_len, mf_pos; static int mf_exists, mf_fds;
static unsigned char *mf_map; static size_t mf_maplen; static int mf_mapw, mf_flags;
int vh_open(const char *path, int flags, ...)
{
  if (!mf_exists) { if (!(flags & O_CREAT)) { errno = ENOENT; return -1; } mf_exists = 1; mf_len = 0; }
  if (flags & O_TRUNC) mf_len = 0;
  mf_pos = 0; mf_fds++; mf_flags = flags; return 7;
}
int vh_close(int fd) { mf_fds--; return 0; }
int vh_fstat(int fd, struct stat *sb) { memset(sb, 0, sizeof *sb); sb->st_size = mf_len; sb->st_mode = S_IFREG | 0600; return 0; }
int vh_ftruncate(int fd, off_t n) { CHECK(n >= 0 && n <= MF_MAX, "file size within the modelled file"); while (mf_len < n) mf_data[mf_len++] = 0; mf_len = n; return 0; }
off_t vh_lseek(int fd, off_t off, int whence) { if (off < 0) return -1; mf_pos = whence == SEEK_SET ? off : whence == SEEK_CUR ? mf_pos + off : mf_len + off; return mf_pos; }
ssize_t vh_read(int fd, void *buf, size_t n) { long i, k = mf_len - mf_pos; if (k < 0) k = 0; if (k > (long) n) k = n; for (i = 0; i < k; i++) ((char *) buf)[i] = mf_data[mf_pos + i]; mf_pos += k; return k; }
ssize_t vh_write(int fd, const void *buf, size_t n) { long i; CHECK(mf_pos + (long) n <= MF_MAX, "file size within the modelled file"); while (mf_len < mf_pos + (long) n) mf_data[mf_len++] = 0; for (i = 0; i < (long) n; i++) mf_data[mf_pos + i] = ((const char *) buf)[i]; mf_pos += n; return n; }
/* a shared mapping: its own block of exactly the mapped size, copied back */
void *vh_mmap(void *a, size_t len, int prot, int flags, int fd, off_t off)
{
  CHECK(len > 0 && (long) len <= mf_len && off == 0, "nothing beyond the end of the file is mapped");
  mf_map = malloc(len); memcpy(mf_map, mf_data, len); mf_maplen = len; mf_mapw = (prot & PROT_WRITE) && (flags & MAP_SHARED);
  return mf_map;
}
int vh_munmap(void *a, size_t len)
{ if (a == mf_map) { CHECK(len == mf_maplen, "the mapping is released whole"); if (mf_mapw) memcpy(mf_data, mf_map, len); free(a); mf_map = NULL; } return 0; }
int vh_fsync(int fd) { return 0; }
#endif
