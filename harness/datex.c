/* d: expressions.  Time is counted in a calendar whose months all have the
 * same length, so that converting either way is simple arithmetic; the code
 * under test never looks at the number itself. */
#include <time.h>
#include "srch.h"
struct ymd { int y, m, d; }; /* years since 1900, months from 0 */
#define TOD (15 * 3600 + 30 * 60 + 20)
#if defined(REL) || defined(ANY)
#define DAYNO(x) (((x).y - 70) * 372 + (x).m * 31 + (x).d - 1)
#define TPD 86400 /* ticks a day */
#define TICKS(h, m, s) ((h) * 3600 + (m) * 60 + (s))
#else
/* months of 32 days, years of 16 months */
#define DAYNO(x) (((x).y - 70) * 512 + (x).m * 32 + (x).d)
#define TPD 32
#define TICKS(h, m, s) (h)
#endif
#define NOWTOD TICKS(15, 30, 20)
static struct ymd today; static long now;
static struct tm tmbuf;
time_t vh_time(time_t *t) { if (t) *t = now; return now; }
struct tm *vh_localtime(const time_t *t)
{
  long s = *t, day; struct ymd x;
  memset(&tmbuf, 0, sizeof tmbuf);
#if !defined(REL) && !defined(ANY)
  /* only the present moment is ever asked for */
  CHECK(s == now, "only the present day is looked up"); x = today; s = TOD;
#else
  day = s / 86400; s %= 86400; x.d = day % 31 + 1; day /= 31; x.m = day % 12; x.y = 70 + day / 12;
#endif
  tmbuf.tm_year = x.y; tmbuf.tm_mon = x.m; tmbuf.tm_mday = x.d; tmbuf.tm_hour = s / 3600; tmbuf.tm_min = s / 60 % 60; tmbuf.tm_sec = s % 60; tmbuf.tm_isdst = 0;
  return &tmbuf;
}
struct tm *vh_gmtime(const time_t *t) { return vh_localtime(t); }
time_t vh_mktime(struct tm *tm)
{ struct ymd x; x.y = tm->tm_year; x.m = tm->tm_mon; x.d = tm->tm_mday; return (long) DAYNO(x) * TPD + TICKS(tm->tm_hour, tm->tm_min, tm->tm_sec); }
static char arg[40] = "d:"; static int al = 2;
static void a(int c) { arg[al++] = (char) c; }
static const char mon[13] = "";
static const char mname[12][4] = { "jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec" };
static int in(int c, int lo, int hi) { return vand(c >= lo, c <= hi); }
static int digit(int lo, int hi) { int c = sym_u8(); ASSUME(in(c, '0' + lo, '0' + hi)); a(c); return c - '0'; }
static int lit(int v) { a('0' + v); return v; }
static void month(int m) { int i, style = m % 3; for (i = 0; i < 3; i++) a(style == 0 || (style == 1 && i) ? mname[m][i] : mname[m][i] & ~32); }
/* a day of the month, 1-9 or 10-31 */
static int day(void)
{
  int d = CHOOSE(0, 3);
  if (!d) return digit(1, 9);
  lit(d); return d * 10 + digit(0, d == 3 ? 1 : 9);
}
/* a year: two digits that cannot be a day, or four */
static int lone;
static int year(void)
{
  static const int t[] = { 0, 3, 7, 6, 9 };
  int y = t[CHOOSE(0, lone ? 4 : 2)], full = CHOOSE(0, 1);
  if (full) { lit(y < 7 ? 2 : 1); lit(y < 7 ? 0 : 9); }
  lit(y); y = y * 10 + digit(y == 3 && !full ? 2 : 0, 9);
  return y + 100 * (y < 70);
}
struct when { int kind, d, m, y; };
enum { D, Y, YMD, M, DM, MY };
static int few;
static void point(struct when *out)
{
  static const int fs[] = { 0, 1, 3, 4, 6 };
  struct when w; int f = few ? fs[CHOOSE(0, 4)] : CHOOSE(0, 9); memset(&w, 0, sizeof w);
  if (f == 3) w.m = CHOOSE(0, 11); else if (f > 3) { static const int ms[] = { 1, 4, 11 }; w.m = ms[CHOOSE(0, 2)]; }
  switch (f) {
  case 0: w.kind = D; w.d = day(); break;
  case 1: w.kind = Y; lone = 1; w.y = year(); lone = 0; break;
  case 2: { static const int ys[] = { 100, 103, 110, 169, 70, 99 }, ds[] = { 1, 9, 10, 25, 31 }; int full = CHOOSE(0, 1);
    w.kind = YMD; w.y = ys[CHOOSE(0, 5)]; w.m = CHOOSE(0, 11); w.d = ds[CHOOSE(0, 4)];
    if (full) { lit(w.y < 100 ? 1 : 2); lit(w.y < 100 ? 9 : 0); }
    lit(w.y / 10 % 10); lit(w.y % 10); lit((w.m + 1) / 10); lit((w.m + 1) % 10); lit(w.d / 10); lit(w.d % 10); break; }
  case 3: w.kind = M; month(w.m); break;
  case 4: w.kind = DM; w.d = day(); month(w.m); break;
  case 5: w.kind = DM; month(w.m); w.d = day(); break;
  case 6: w.kind = MY; w.y = year(); month(w.m); break;
  case 7: w.kind = MY; month(w.m); w.y = year(); break;
  case 8: w.kind = YMD; w.d = day(); month(w.m); w.y = year(); break;
  case 9: w.kind = YMD; w.y = year(); month(w.m); w.d = day(); break;
  }
  *out = w;
}
static int monlen(int m, int y) { static const int l[12] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; return m == 1 ? 28 + (y % 4 == 0) : l[m]; }
/* the day meant, on or before ref where the expression leaves that open */
static void resolve(struct ymd *out, const struct when *pw, const struct ymd *pref, int end)
{
  struct ymd r, ref = *pref; struct when w = *pw; int back;
  switch (w.kind) {
  case D: back = w.d > ref.d; r.y = ref.y - vand(back, ref.m == 0); r.m = ref.m - back + 12 * vand(back, ref.m == 0); r.d = w.d; break;
  case Y: r.y = w.y; r.m = end ? 11 : 0; r.d = end ? 31 : 1; break;
  case M: r.y = ref.y - (w.m > ref.m); r.m = w.m; r.d = end ? monlen(w.m, r.y) : 1; break;
  case DM: r.y = ref.y - vor(w.m > ref.m, vand(w.m == ref.m, w.d > ref.d)); r.m = w.m; r.d = w.d; break;
  case MY: r.y = w.y; r.m = w.m; r.d = end ? monlen(w.m, w.y) : 1; break;
  default: r.y = w.y; r.m = w.m; r.d = w.d;
  }
  *out = r;
}
/* a handful of end points, for ranges */
static void endpoint(struct when *w)
{
  static const struct { const char *t; struct when w; } e[] = {
    { "9", { D, 9 } }, { "25", { D, 25 } }, { "mar", { M, 0, 2 } }, { "Dec", { M, 0, 11 } }, { "1oct", { DM, 1, 9 } }, { "feb28", { DM, 28, 1 } },
    { "2002", { Y, 0, 0, 102 } }, { "040229", { YMD, 29, 1, 104 } }, { "feb2004", { MY, 0, 1, 104 } }, { "01oct", { MY, 0, 9, 101 } } };
  int i = CHOOSE(0, 9); const char *t;
  for (t = e[i].t; *t; t++) a(*t);
  *w = e[i].w;
}
#ifdef ANY
void harness(void)
{
  static const char *const pre[] = { "", "1", "1jan", "jan-", "9999" };
  int n, i; char *argv[2] = { arg, NULL }; const char *p = pre[CHOOSE(0, 4)];
  today.y = 121; today.m = 4; today.d = 18; now = (long) DAYNO(today) * TPD + NOWTOD;
  while (*p) a(*p++);
  n = CHOOSE(1, ANY);
  for (i = 0; i < n; i++) { int c = sym_u8(); ASSUME(vand(c != 0, vand(c != '/', vand(c != ',', vand(c != '~', c != '='))))); a(c); }
  im_new(1024); srch_msgs(1); im_mboxen(0); im_empty_toks();
  srch_run(argv, 0, 0, 1);
  COVER_IF(got[0], "found"); COVER_IF(!got[0], "not found");
}
#else
void harness(void)
{
  int form, n = 1, have_s = 1, have_e = 1; char *argv[2] = { arg, NULL };
  struct ymd s, e; long S = 0, E = 0, day_; struct when w1, w2;
  memset(&s, 0, sizeof s); memset(&e, 0, sizeof e);
#ifdef REL
  { static const struct ymd t[] = { { 121, 4, 18 }, { 103, 0, 1 }, { 120, 11, 31 } }; today = t[CHOOSE(0, 2)]; }
#else
#endif
  now = (long) DAYNO(today) * TPD + NOWTOD;
#ifdef REL
  {
    static const int num[] = { 0, 1, 2, 7, 14, 45, 99, 100, 120 }; static const char unit[] = "dwmy"; static const int len[] = { 1, 7, 30, 365 };
    int k = CHOOSE(0, 3), i, j, v;
    for (i = 0; i < 2; i++) {
      if (i == 1 && k != 2 && k != 1) a('-');
      if (k == 3 && i == 1) { endpoint(&w2); resolve(&e, &w2, &today, 1); E = DAYNO(e); continue; }
      if (k == 1 && i == 0) { a('-'); have_s = 0; continue; }
      if (k == 2 && i == 1) { a('-'); have_e = 0; continue; }
      v = k ? num[CHOOSE(0, 8)] : num[3 * CHOOSE(0, 2) + i]; j = CHOOSE(0, 3);
      if (v >= 100) a('1'); if (v >= 10) a('0' + v / 10 % 10); a('0' + v % 10); a(unit[j]);
      if (i == 0) S = DAYNO(today) - (long) v * len[j]; else E = DAYNO(today) - (long) v * len[j];
    }
  }
#else
  form = CHOOSE(FLO, FHI); /* 0 period, 1 -end, 2 start-, 3 start-end */
  memset(&w2, 0, sizeof w2);
  if (form == 1) { a('-'); have_s = 0; }
  few = form == 3; point(&w1);
  if (form >= 2) a('-');
  if (form == 2) have_e = 0;
  if (w1.kind != D && w1.kind != M && w1.kind != DM && form != 3) { today.y = 121; today.m = 4; today.d = 18; }
  else { static const int ys[] = { 103, 120 }, ms[] = { 0, 1, 4, 11 }; today.y = ys[CHOOSE(0, 1)]; today.m = ms[CHOOSE(0, 3)]; today.d = sym_range(1, 31); }
  now = (long) DAYNO(today) * TPD + NOWTOD;
  if (form == 3) {
    endpoint(&w2);
    resolve(&e, &w2, &today, 1); resolve(&s, &w1, &e, 0);
  } else { resolve(&e, &w1, &today, 1); resolve(&s, &w1, &today, 0); }
  S = DAYNO(s); E = DAYNO(e);
#endif
  arg[al] = 0;
  im_new(1024); srch_msgs(1); im_mboxen(0); im_empty_toks();
  /* messages are dated at the start of their day */
  day_ = sym_range(0, 49000); IM_MSG(UI_MSG_DATE, 0) = (unsigned) day_ * TPD;
  srch_run(argv, 0, 0, 1);
  if (have_s && have_e && S > E) {
    /* the wrong way round: whether the end days count is left open */
    if (day_ == S || day_ == E) return;
    CHECK(got[0] == (day_ > E && day_ < S), "a range given backwards means the same days");
    COVER("backwards"); return;
  }
  if (have_s && day_ == S) return; /* whether the start day counts is left open */
  CHECK(got[0] == ((!have_s || day_ > S) && (!have_e || day_ <= E)), "a date search reports exactly the messages of the days meant");
  COVER_IF(got[0], "found"); COVER_IF(!got[0], "not found");
}
#endif
