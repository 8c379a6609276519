/* Force-included before the real sources of a job that asks for it: routes the
 * calls that touch the world (files, directories, output, clock, processes) to
 * vh_* stand-ins defined by the harness, which record or model them.  Function
 * like macros, so that struct stat, struct flock etc. are untouched. */
#ifndef VHSYS_H
#define VHSYS_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE 1
#endif
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <strings.h>
#include <ctype.h>
#include <errno.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <time.h>
#include <pwd.h>
#include <limits.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/utsname.h>
#include <sys/wait.h>
/* files */
#ifdef VH_FILES
int vh_open(const char *path, int flags, ...);
int vh_close(int fd);
int vh_fstat(int fd, struct stat *sb);
int vh_ftruncate(int fd, off_t len);
off_t vh_lseek(int fd, off_t off, int whence);
ssize_t vh_read(int fd, void *buf, size_t n);
ssize_t vh_write(int fd, const void *buf, size_t n);
void *vh_mmap(void *a, size_t len, int prot, int flags, int fd, off_t off);
int vh_munmap(void *a, size_t len);
int vh_fsync(int fd);
#define open(...) vh_open(__VA_ARGS__)
#define close(...) vh_close(__VA_ARGS__)
#define fstat(...) vh_fstat(__VA_ARGS__)
#define ftruncate(...) vh_ftruncate(__VA_ARGS__)
#define lseek(...) vh_lseek(__VA_ARGS__)
#define read(...) vh_read(__VA_ARGS__)
#define write(...) vh_write(__VA_ARGS__)
#define mmap(...) vh_mmap(__VA_ARGS__)
#define munmap(...) vh_munmap(__VA_ARGS__)
#define fsync(...) vh_fsync(__VA_ARGS__)
#endif
/* sockets and pipes */
#ifdef VH_NET
#include <poll.h>
#include <netdb.h>
#include <sys/socket.h>
int vh_poll(struct pollfd *p, unsigned long n, int timeout);
int vh_pipe(int *fd);
int vh_fork(void);
#define poll(...) vh_poll(__VA_ARGS__)
#define pipe(...) vh_pipe(__VA_ARGS__)
#define fork(...) vh_fork(__VA_ARGS__)
#define fcntl(...) 0
#define dup2(...) 0
#define execl(...) 0
#define _exit(...) exit(__VA_ARGS__)
#define sleep(...) 0
#define waitpid(...) 0
#define kill(...) 0
#define socket(...) 5
#define connect(...) 0
int vh_getaddrinfo(const char *host, const char *port, const struct addrinfo *h, struct addrinfo **r);
#define getaddrinfo(...) vh_getaddrinfo(__VA_ARGS__)
#define freeaddrinfo(...) 0
#define gai_strerror(...) ""
#endif
/* names */
#ifdef VH_NAMES
int vh_stat(const char *path, struct stat *sb);
int vh_lstat(const char *path, struct stat *sb);
int vh_unlink(const char *path);
int vh_link(const char *a, const char *b);
int vh_symlink(const char *a, const char *b);
int vh_mkdir(const char *path, mode_t m);
int vh_rename(const char *a, const char *b);
int vh_rmdir(const char *a);
int vh_remove(const char *a);
int vh_access(const char *a, int m);
DIR *vh_opendir(const char *path);
struct dirent *vh_readdir(DIR *d);
int vh_closedir(DIR *d);
#define stat(...) vh_stat(__VA_ARGS__)
#define lstat(...) vh_lstat(__VA_ARGS__)
#define unlink(...) vh_unlink(__VA_ARGS__)
#define link(...) vh_link(__VA_ARGS__)
#define symlink(...) vh_symlink(__VA_ARGS__)
#define mkdir(...) vh_mkdir(__VA_ARGS__)
#define rename(...) vh_rename(__VA_ARGS__)
#define rmdir(...) vh_rmdir(__VA_ARGS__)
#define remove(...) vh_remove(__VA_ARGS__)
#define access(...) vh_access(__VA_ARGS__)
#define opendir(...) vh_opendir(__VA_ARGS__)
#define readdir(...) vh_readdir(__VA_ARGS__)
#define closedir(...) vh_closedir(__VA_ARGS__)
#endif
/* standard output */
#ifdef VH_STDOUT
int vh_printf(const char *fmt, ...);
int vh_puts(const char *s);
int vh_putchar(int c);
#define printf(...) vh_printf(__VA_ARGS__)
#define puts(...) vh_puts(__VA_ARGS__)
#undef putchar
#define putchar(...) vh_putchar(__VA_ARGS__)
#endif
/* stdio files written by name */
#ifdef VH_STDIO
FILE *vh_fopen(const char *path, const char *mode);
int vh_fclose(FILE *f);
size_t vh_fwrite(const void *p, size_t sz, size_t n, FILE *f);
int vh_fputs(const char *s, FILE *f);
int vh_fputc(int c, FILE *f);
int vh_fprintf(FILE *f, const char *fmt, ...);
char *vh_fgets(char *s, int n, FILE *f);
FILE *vh_tmpfile(void);
int vh_fileno(FILE *f);
#define tmpfile(...) vh_tmpfile(__VA_ARGS__)
#undef fileno
#define fileno(...) vh_fileno(__VA_ARGS__)
#define fgets(...) vh_fgets(__VA_ARGS__)
#define fopen(...) vh_fopen(__VA_ARGS__)
#define fclose(...) vh_fclose(__VA_ARGS__)
#define fwrite(...) vh_fwrite(__VA_ARGS__)
#define fputs(...) vh_fputs(__VA_ARGS__)
#define fputc(...) vh_fputc(__VA_ARGS__)
#undef putc
#define putc(...) vh_fputc(__VA_ARGS__)
#define fprintf(...) vh_fprintf(__VA_ARGS__)
#endif
/* time */
#ifdef VH_TIME
time_t vh_time(time_t *t);
struct tm *vh_localtime(const time_t *t);
struct tm *vh_gmtime(const time_t *t);
time_t vh_mktime(struct tm *tm);
#define time(...) vh_time(__VA_ARGS__)
#define localtime(...) vh_localtime(__VA_ARGS__)
#define gmtime(...) vh_gmtime(__VA_ARGS__)
#define mktime(...) vh_mktime(__VA_ARGS__)
size_t vh_strftime(char *s, size_t n, const char *f, const struct tm *t);
#define strftime(...) vh_strftime(__VA_ARGS__)
#endif
/* processes and host */
#ifdef VH_PROC
pid_t vh_getpid(void);
int vh_uname(struct utsname *u);
int vh_kill(pid_t p, int s);
#define getpid(...) vh_getpid(__VA_ARGS__)
#define uname(...) vh_uname(__VA_ARGS__)
#define kill(...) vh_kill(__VA_ARGS__)
#endif
/* the program as a whole */
#ifdef VH_MAIN
#include <locale.h>
char *vh_getenv(const char *n);
struct passwd *vh_getpwuid(uid_t u);
void vh_exit(int code) __attribute__((noreturn));
void (*vh_signal(int s, void (*h)(int)))(int);
int mx_main(int argc, char **argv);
#define main mx_main
#define getenv(...) vh_getenv(__VA_ARGS__)
#define getpwuid(...) vh_getpwuid(__VA_ARGS__)
#define getuid() ((uid_t) 1000)
#define setlocale(...) ((char *) 0)
#define exit(...) vh_exit(__VA_ARGS__)
#define signal(...) vh_signal(__VA_ARGS__)
#define perror(...) ((void) 0)
#endif
#endif
