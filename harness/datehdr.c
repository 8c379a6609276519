/* The Date: header. */
#include "rfcmsg.h"
#include <time.h>
static int nmk, hy, hm, hd;
time_t vh_time(time_t *t) { return 1; }
struct tm *vh_localtime(const time_t *t) { return NULL; }
struct tm *vh_gmtime(const time_t *t) { return NULL; }
time_t vh_mktime(struct tm *tm)
{
  nmk++;
  CHECK(tm->tm_hour == 0 && tm->tm_min == 0 && tm->tm_sec == 0, "a message is dated at the start of its day");
  hy = tm->tm_year; hm = tm->tm_mon; hd = tm->tm_mday;
  return 1000 + nmk;
}
static const char mon[12][4] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
static const char *const rest[12] = { "uary", "ruary", "ch", "il", "", "e", "y", "ust", "tember", "ober", "ember", "ember" };
static int digit(void) { int c = sym_u8(); ASSUME(vand(c >= '0', c <= '9')); putb(c); return c - '0'; }
#ifndef ANY
void harness(void)
{
  int m = CHOOSE(0, 11), mc = CHOOSE(0, 3), wd = CHOOSE(0, 2), nd = CHOOSE(1, 2), y4 = CHOOSE(0, 1), tail = CHOOSE(0, 3), i, d = 0, y = 0, wy; struct rfc822 *r;
  int bad = 0;
  put(CHOOSE(0, 1) ? "Date:" : "DATE:  ");
  put(wd == 0 ? "" : wd == 1 ? "Mon, " : " Tue,\t");
  for (i = 0; i < nd; i++) d = d * 10 + digit();
  put(" ");
  for (i = 0; i < 3; i++) { int c = mon[m][i]; if (mc == 1) c &= ~32; if (mc == 2) c |= 32; putb(c); }
  if (mc == 3) put(rest[m]);
  put("  ");
  for (i = 0; i < (y4 ? 4 : 2); i++) y = y * 10 + digit();
  put(tail == 3 ? " 23:59:58 +0000 (GMT, 1 May 1999)" : tail == 0 ? " 23:59:58 -0800 (PST)" : tail == 1 ? "\t01:02" : "  9:0:0 GMT"); put("\n");
  if (CHOOSE(0, 1)) put("Date: 1 Jan 2000 00:00:00 +0000\n");
  put("\nx\n");
  if (y4) { ASSUME(y >= 1900); wy = y - 1900; } else wy = y + 100 * (y < 70);
  ASSUME(d >= 1); bad = d > 31;
  r = parse();
  CHECK(r && err == DTR8_OK, "a message is indexed whatever its date says");
  if (bad) { CHECK(r->hdrs.date == (time_t) -1 && nmk == 0, "an impossible date is no date"); COVER("bad"); return; }
  CHECK(nmk == 1 && r->hdrs.date == 1001, "the first date header counts");
  CHECK(hd == d && hm == m && hy == wy, "the day is the one written");
  COVER("good"); COVER_IF(!y4, "two digit year");
}
#else
/* arbitrary text: never a crash, and a date only if there is a day, a month and a year */
void harness(void)
{
  static const char *const pre[] = { "", "1 ", "1 Jan ", "1 Jan 99", "Mon,", "32 Jan 99 " };
  int p = CHOOSE(0, 5), n = CHOOSE(0, ANY), i; struct rfc822 *r;
  put("Date:"); put(pre[p]);
  for (i = 0; i < n; i++) { int c = sym_u8(); ASSUME(vand(c != 0, c != '\n')); putb(c); }
  put("\n\nx\n");
  r = parse();
  CHECK(r && err == DTR8_OK, "a message is indexed whatever its date says");
  CHECK(r->hdrs.date == (nmk ? 1001 : (time_t) -1), "what is not a date gives no date");
  CHECK(p == 2 || p == 3 || !nmk, "a date needs a day, a month and a year");
  COVER_IF(nmk, "good"); COVER_IF(!nmk, "bad");
}
#endif
