/* Messages built piece by piece, parsed by the real data_to_rfc822. */
#include "vh.h"
#include "mairix.h"
#include "imapinterface.h"
#define MMAX 700
static char msg[MMAX]; static int mlen;
static enum data_to_rfc822_error err;
static struct msg_src src;
static void putb(int c) { msg[mlen++] = (char) c; }
static void putn(const char *s, int n) { memcpy(msg + mlen, s, n); mlen += n; }
static void put(const char *s) { while (*s) msg[mlen++] = *s++; }
/* the whole text, in a block of exactly its size */
static struct rfc822 *parse(void)
{
  char *b = malloc(mlen ? mlen : 1); struct rfc822 *r;
  if (mlen) memcpy(b, msg, mlen);
  src.type = MS_FILE; src.filename = "m";
  r = data_to_rfc822(&src, b, mlen, &err);
  free(b);
  return r;
}
static int n_atts(struct rfc822 *r) { int n = 0; struct attachment *a; for (a = r->atts.next; a != &r->atts; a = a->next) n++; return n; }
static struct attachment *att(struct rfc822 *r, int i) { struct attachment *a = r->atts.next; while (i--) a = a->next; return a; }
VH_UNUSED static int same(const char *got, const char *want, int n) { int i, ok = 1; for (i = 0; i < n; i++) ok = vand(ok, got[i] == want[i]); return ok; }
