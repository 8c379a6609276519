/* Parameters of MIME headers, seen through the attachment's type and name. */
#include "rfcmsg.h"
#ifndef K
#define K 2
#endif
#ifndef V
#define V 2
#endif
static char want[60]; static int wl, got;
static int vchar(void) { int c = sym_u8(); ASSUME(vand(c > ' ', c < 127)); ASSUME(vand(c != '\\', vand(c != '"', c != ';'))); return c; }
static int qchar(void) { int c = sym_u8(); ASSUME(vor(c == 9, vand(c >= ' ', c < 127))); ASSUME(vand(c != '\\', c != '"')); return c; }
static int take; /* does this value count? */
static void v(int c) { putb(c); if (take) want[wl++] = (char) c; }
static int blanks; /* 0 none, 1 blank, 2 tab, wherever they may be */
static void ws(void) { if (blanks) putb(blanks == 1 ? ' ' : '\t'); }
/* values other than the one asked for, and pieces, are shorter */
static int pieces, cnt; /* pieces: values of the parameter, one of them arbitrary */
static int open_(void) { return take && (!pieces || pieces == ++cnt); }
#define FIX(c) if (!open_()) { c; return; }
static void plainval(void) { int i, n; FIX(v('p')); n = CHOOSE(1, V); for (i = 0; i < n; i++) v(vchar()); }
static void quotedval(void) { int i, n; FIX(putb('"'); v('q'); v(' '); putb('"')); n = CHOOSE(1, V); putb('"'); for (i = 0; i < n; i++) v(qchar()); putb('"'); }
static void pctval(void)
{
  int i, n; FIX(put("%4a"); if (take) want[wl++] = 'J'; v('r')); n = CHOOSE(1, V);
  for (i = 0; i < n; i++) {
    if (CHOOSE(0, 1)) { int c = vchar(); ASSUME(vand(c != '%', c != '\'')); v(c); }
    else { int c = sym_u8(), h = c >> 4, l = c & 15; ASSUME(c != 0); putb('%'); putb('0' + h + 7 * (h >= 10)); putb('0' + l + 39 * (l >= 10)); if (take) want[wl++] = (char) c; }
  }
}
static int in_ct; /* in the Content-Type header, whose name counts as a last resort */
static void piece_name(int who) { static const char *const other[] = { "fileNAME", "filenamE", "filenames", "Name", "X" }; static const char *const nm[] = { "filename", "FileName", "filenames", "name", "x" }; put(in_ct ? (who == 0 ? "x" : who == 4 ? "Names" : CHOOSE(0, 1) ? "NAme" : "name") : CHOOSE(0, 1) ? other[who] : nm[who]); }
static void param(void)
{
  static const char *const nms[] = { "filename", "FileName", "filenames", "name", "x" }, *const ctn[] = { "x", "name", "Name", "NAME", "names" };
  const char *const *nm = in_ct ? ctn : nms;
  int who = in_ct ? CHOOSE(0, 4) : CHOOSE(0, 4), form = CHOOSE(0, 4), i, m, counts = in_ct ? who >= 1 && who <= 3 : who <= 1;
  ASSUME(!(form == 3 && counts && got));
  take = counts && !got; pieces = cnt = 0;
  if (counts) got = 1;
  putb(';'); ws();
  if (form == 0) { put(nm[who]); ws(); putb('='); ws(); plainval(); }
  else if (form == 1) { put(nm[who]); ws(); putb('='); ws(); quotedval(); }
  else if (form == 2) { put(nm[who]); put("*="); if (CHOOSE(0, 1)) put("utf-8"); put("''"); pctval(); }
  else {
    m = CHOOSE(1, 2); pieces = take ? CHOOSE(1, m + 1) : 1;
    for (i = 0; i <= m; i++) {
      if (i) put("; ");
      if (i) piece_name(who); else put(nm[who]);
      putb('*'); putb('0' + i); if (form == 4) putb('*'); putb('=');
      if (form == 4) { if (i == 0) put("utf-8''"); pctval(); }
      else if (i == 0 || blanks) quotedval(); else plainval();
    }
  }
}
#ifdef ANYTEXT
/* whatever a header says, parsing it stays inside its text */
void harness(void)
{
  static const char *const pre[] = { "", "attachment; filename=\"", "attachment; filename*=", "attachment; filename*0*=a''%", "attachment; filename*1=x;", "attachment; filename*=''" };
  int n = CHOOSE(0, ANYTEXT), i; struct rfc822 *r;
  put("Content-Type: a/b\nContent-Disposition: "); put(pre[CHOOSE(0, 5)]);
  for (i = 0; i < n; i++) { int c = sym_u8(); ASSUME(vand(c != 0, c != '\n')); putb(c); }
  put("\n\nB");
  r = parse();
  CHECK(r && n_atts(r) == 1 && att(r, 0)->ct == CT_OTHER, "the message is still indexed");
  if (att(r, 0)->filename) { COVER("named"); CHECK(strlen(att(r, 0)->filename) <= 40, "the name is no longer than the header"); } else COVER("unnamed");
}
#else
void harness(void)
{
  int k = CHOOSE(0, K), i, t = K == 1 ? CHOOSE(0, 3) : 1; struct rfc822 *r; struct attachment *a;
  static const char *const ct[] = { "text/plain", "Application/X-y.z+w", "TEXT/html", "image/png" };
  static const enum content_type cw[] = { CT_TEXT_PLAIN, CT_OTHER, CT_TEXT_HTML, CT_OTHER };
  blanks = CHOOSE(0, K == 1 ? 2 : 1);
#ifdef CTNAME
  /* the name may be in the type, too */
  put("Content-Disposition: attachment");
  if (k) { put("; FileName="); take = got = 1; v(vchar()); take = 0; put("\n"); } else put("; size=3\n");
  put("Content-Type:"); ws(); put(ct[t]); in_ct = 1; param();
  if (CHOOSE(0, 1)) putb(';');
  goto ready;
#endif
  put("Content-Type:"); ws(); put(ct[t]); if (t & 1) put(" ; charset=\"a;b\""); putb('\n');
  put("Content-Disposition: attachment");
#ifdef SAMENAME
  /* a plain name next to an encoded one: each on its own */
  put("; filename="); take = 1; got = 1; plainval(); take = 0;
  i = CHOOSE(0, 1);
  if (i == 0) { put("; filename*=utf-8''"); pctval(); }
  else { put("; filename*0*=utf-8''"); pctval(); put("; filename*1*="); pctval(); }
#else
  for (i = 0; i < k; i++) param();
#endif
  if (CHOOSE(0, 1)) putb(';');
  ws();
#ifdef CTNAME
ready:
#endif
  put("\n\nB");
  r = parse();
  CHECK(r && err == DTR8_OK && n_atts(r) == 1, "a well formed message is understood");
  a = att(r, 0);
  CHECK(a->ct == cw[t], "the content type is the one given");
  CHECK((a->filename != NULL) == got, "an attachment has a name exactly when its header gives one");
  if (got) {
    CHECK(same(a->filename, want, wl), "the name is the one given, pieces joined and escapes resolved");
    CHECK(a->filename[wl] == 0, "the name ends where it should");
    COVER("named");
  } else COVER("unnamed");
  CHECK(a->data.normal.len == 1 && a->data.normal.bytes[0] == 'B', "the body is intact");
}
#endif
