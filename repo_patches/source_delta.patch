From f9e540b8541642316ab80c65659545979d020236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:55 +0000
Subject: [PATCH 01/55] fix: sorting results by date misplaced dates more than
 2^31 seconds apart

---
 search.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/search.c b/search.c
index 27b02b8..b0b1f44 100644
--- a/search.c
+++ b/search.c
@@ -792,7 +792,11 @@ static int db_date_cmp(const void *va, const void *vb)
   const int *ap = (const int *) va;
   const int *bp = (const int *) vb;
 
-  return qsortdb->date_table[*ap] - qsortdb->date_table[*bp];
+  unsigned int ad = qsortdb->date_table[*ap];
+  unsigned int bd = qsortdb->date_table[*bp];
+
+  /* The difference of two dates need not fit in an int. */
+  return (ad > bd) - (ad < bd);
 }
 
 static int do_search(struct read_db *db, char **args, char *output_path, int show_threads, enum folder_type ft, int verbose, const char *imap_pipe, const char *imap_server, const char *imap_username, const char *imap_password, int please_clear, int sort_by_date)/*{{{*/
-- 
2.43.0


From cb3c55139dabdb184d8003a45024bedf657f77e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:55 +0000
Subject: [PATCH 02/55] fix: -t reported the threads of deleted messages that
 matched

A message that no longer exists stays in the index until it is purged.  It is
not reported itself, but its thread was.
---
 search.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search.c b/search.c
index b0b1f44..c284d7c 100644
--- a/search.c
+++ b/search.c
@@ -1061,7 +1061,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
     tids = new_array(char, db->n_msgs);
     memset(tids, 0, db->n_msgs);
     for (i=0; i<db->n_msgs; i++) {
-      if (hit3[i]) {
+      if (hit3[i] && rd_msg_type(db, i) != DB_MSG_DEAD) {
         tids[db->tid_table[i]] = 1;
       }
     }
-- 
2.43.0


From 32761d4f7fc7855a767cade0644ac2563462fc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:23 +0000
Subject: [PATCH 03/55] fix: loading an index read an uninitialised value for
 message ids that are only referenced

---
 reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.c b/reader.c
index d04a75e..d7b91ea 100644
--- a/reader.c
+++ b/reader.c
@@ -89,7 +89,7 @@ int int_list_reader_read(struct int_list_reader *ilr, int *result) {
 
 void int_list_reader_copy(struct int_list_reader *ilr, struct matches *out) {
   const unsigned char *base = ilr->pos;
-  int size, index;
+  int size, index = 0;
   while (int_list_reader_read(ilr, &index));
   size = ilr->pos - base;
 
-- 
2.43.0


From dc1a55b934ae8b0f918bf5e13ec1cde31a126f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:16 +0000
Subject: [PATCH 04/55] fix: size and mtime of IMAP messages were left as stale
 bytes in the index file

---
 writer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/writer.c b/writer.c
index 4b37274..a61cf1e 100644
--- a/writer.c
+++ b/writer.c
@@ -358,6 +358,8 @@ static char *write_messages(struct database *db, struct write_map *map, unsigned
       case MTY_IMAP:
         slen = strlen(db->msgs[i].src.mpf.path);
         uidata[map->path_offset + i] = cdata - data;
+        uidata[map->mtime_offset + i] = db->msgs[i].src.mpf.mtime;
+        uidata[map->size_offset + i] = db->msgs[i].src.mpf.size;
         uidata[map->date_offset + i] = db->msgs[i].date;
         uidata[map->tid_offset + i]  = db->msgs[i].tid;
         memcpy(cdata, db->msgs[i].src.mpf.path, 1 + slen); /* include trailing null */
-- 
2.43.0


From df543a0be8ed6eaf5155464e909291a32b1a0449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:34 +0000
Subject: [PATCH 05/55] fix: -t after a purge wrote past the end of the thread
 table

---
 search.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/search.c b/search.c
index c284d7c..52ff767 100644
--- a/search.c
+++ b/search.c
@@ -1058,8 +1058,13 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
 
   if (show_threads) {/*{{{*/
     char *tids;
-    tids = new_array(char, db->n_msgs);
-    memset(tids, 0, db->n_msgs);
+    unsigned int n_tids = 0;
+    /* After a purge, thread numbers can exceed the number of messages left. */
+    for (i=0; i<db->n_msgs; i++) {
+      if (db->tid_table[i] >= n_tids) n_tids = db->tid_table[i] + 1;
+    }
+    tids = new_array(char, n_tids);
+    memset(tids, 0, n_tids);
     for (i=0; i<db->n_msgs; i++) {
       if (hit3[i] && rd_msg_type(db, i) != DB_MSG_DEAD) {
         tids[db->tid_table[i]] = 1;
-- 
2.43.0


From 9915be5465cb21a72b74f2202243534bd5a07f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:40 +0000
Subject: [PATCH 06/55] fix: a mailbox that lost its last messages kept
 counting them

When an mbox shrank and held nothing new, its message count was left at the
old value.  The index then recorded messages that no longer exist, and the
next scan compared checksums at places read from uninitialised memory.
---
 mbox.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mbox.c b/mbox.c
index 49e973a..e9aca87 100644
--- a/mbox.c
+++ b/mbox.c
@@ -416,6 +416,8 @@ static void rescan_mbox(struct mbox *mb, char *va, size_t len)/*{{{*/
 
   /* Find the last message in the box that appears to be intact. */
   mb->n_old_msgs_valid = find_number_intact(mb, va, len);
+  /* If there's nothing new to add, these are all that's left. */
+  mb->n_msgs = mb->n_old_msgs_valid;
   mb->new_msgs = build_new_message_list(mb, va, len, &mb->n_new_msgs);
 }
 /*}}}*/
-- 
2.43.0


From efb54b93f26681a620c6651ff63fd26e6a7525f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:48 +0000
Subject: [PATCH 07/55] fix: a wildcard with an unterminated [ was read past
 its end

---
 glob.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/glob.c b/glob.c
index 67f423e..532161e 100644
--- a/glob.c
+++ b/glob.c
@@ -83,7 +83,8 @@ static const char *parse_charclass(const char *in, struct globber *result, unsig
     first = 0;
     in++;
   }
-  return in;
+  /* Unterminated class : leave the terminating null for the caller to find. */
+  return in - 1;
 }
 /*}}}*/
 
-- 
2.43.0


From 6a7f54fe5cc1e3ba4225bbe52297561cff9358e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:36 +0000
Subject: [PATCH 08/55] fix: ranges of characters above 127 in a [...] wildcard
 were taken as three single characters

The end points were compared as signed characters, so the lower one looked
like 'no previous character'.  The reset after a range (for [a-e-z]) was also
overwritten at once.
---
 glob.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/glob.c b/glob.c
index 532161e..255446b 100644
--- a/glob.c
+++ b/glob.c
@@ -58,7 +58,7 @@ static const char *parse_charclass(const char *in, struct globber *result, unsig
          * normal - */
         result->pat['-'] |= mask;
       } else {
-        int next = in[1];
+        int next = 0xff & (int)in[1];
         int hi, lo;
         int i;
         /* Cope with range being inverted */
@@ -71,15 +71,15 @@ static const char *parse_charclass(const char *in, struct globber *result, unsig
           int index = 0xff & i;
           result->pat[index] |= mask;
         }
-        /* require 1 extra increment */
-        in++;
+        in += 2;
         prev = -1; /* Avoid junk like [a-e-z] */
+        continue;
       }
     } else {
       int index = 0xff & (int)*in;
       result->pat[index] |= mask;
     }
-    prev = *in;
+    prev = 0xff & (int)*in;
     first = 0;
     in++;
   }
-- 
2.43.0


From cc8aa3042710eb67a16956a588c99b44aa97a307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:47 +0000
Subject: [PATCH 09/55] fix: don't read past the end of a truncated
 quoted-printable body

An '=' in the last bytes of a quoted-printable body made the decoder look
for white space, a newline or two hex digits beyond the end of the data
(beyond the end of the mapped file, if the body is the end of the message).
---
 rfc822.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index c3dcdfb..4599fba 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -436,18 +436,15 @@ static void parse_content_type(struct nvp *ct_nvp, struct content_type_header *r
 }
 
 /*}}}*/
-static char *looking_at_ws_then_newline(char *start)/*{{{*/
+static char *looking_at_ws_then_newline(char *start, char *end)/*{{{*/
 {
   char *result;
-  result = start;
-  do {
-         if (*result == '\n')   return result;
-    else if (!isspace(*(unsigned char *) result)) return NULL;
-    else                        result++;
-  } while (1);
+  for (result = start; result < end; result++) {
+    if (*result == '\n') return result;
+    if (!isspace(*(unsigned char *) result)) return NULL;
+  }
 
-  /* Can't get here */
-  assert(0);
+  return NULL;
 }
 /*}}}*/
 
@@ -488,11 +485,13 @@ static char *unencode_data(struct msg_src *src, char *input, int input_len, cons
             char *r;
             int val;
             q++;
-            r = looking_at_ws_then_newline(q);
+            r = looking_at_ws_then_newline(q, end_input);
             if (r) {
               q = r + 1; /* Point into next line */
               continue;
             }
+            /* input cut off in the middle of an escape */
+            if (end_input - q < 2) break;
             /* not that case. */
             val =  hex_to_val(*q++) << 4;
             val += hex_to_val(*q++);
-- 
2.43.0


From 2f5d422f6c1f993f1ba3da354992a96c80e885a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:47 +0000
Subject: [PATCH 10/55] fix: decode uuencoded bodies line by line and within
 the data

The newline ending the 'begin' line (and each data line) was taken for the
length character of the next line, so no uuencoded body was ever decoded
correctly, and a length character near the end of the body made the decoder
read past the input and write past the result.
---
 rfc822.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index 4599fba..f0d9b89 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -544,16 +544,17 @@ static char *unencode_data(struct msg_src *src, char *input, int input_len, cons
         for (q = input; q < end_input - 6 && memcmp(q, "begin ", 6); q++)
           ;
         q += 6;
-        /* skip to EOL */
+        /* skip to start of next line */
         while (q < end_input && *q != '\n')
           q++;
+        q++;
         p = result;
         while (q < end_input) { /* process line */
 #define DEC(c) (((c) - ' ') & 077)
           int len = DEC(*q++);
           if (len == 0)
             break;
-          for (; len > 0; q += 4, len -= 3) {
+          for (; len > 0 && end_input - q >= 4; q += 4, len -= 3) {
             if (len >= 3) {
               *p++ = DEC(q[0]) << 2 | DEC(q[1]) >> 4;
               *p++ = DEC(q[1]) << 4 | DEC(q[2]) >> 2;
@@ -567,6 +568,7 @@ static char *unencode_data(struct msg_src *src, char *input, int input_len, cons
           }
           while (q < end_input && *q != '\n')
             q++;
+          q++;
         }
         end_result = p;
       }
-- 
2.43.0


From 31d079bf2f2f8cbe163e64c36328bcfe78ebf30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:35 +0000
Subject: [PATCH 11/55] fix: keep an RFC 2231 encoded parameter apart from a
 plain one of the same name

The test for the start of an encoded value looked at the wrong variable, so
'filename="a.txt"; filename*=utf-8''a.txt' gave an attachment called
a.txta.txt.  Continuation pieces now go to the latest parameter of that name.
---
 nvp.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nvp.c b/nvp.c
index 3cd99f5..9ab794b 100644
--- a/nvp.c
+++ b/nvp.c
@@ -104,7 +104,9 @@ static void append_namevalue(struct nvp *nvp, char **name, char **value)/*{{{*/
 static void combine_namevalue(struct nvp *nvp, char **name, char **value)/*{{{*/
 {
   struct nvp_entry *n;
-  for (n=nvp->first; n; n=n->next) {
+  /* Continue the most recent one: an earlier parameter of the same name is
+   * complete (e.g. filename=..; filename*0*=..; filename*1*=..) */
+  for (n=nvp->last; n; n=n->prev) {
     if (n->type == NVP_NAMEVALUE) {
       if (!strcmp(n->lhs, *name)) {
         char *new_rhs;
@@ -293,7 +295,7 @@ struct nvp *make_nvp(struct msg_src *src, char *s, const char *pfx)/*{{{*/
 		    *tempdst++ = *tempsrc;
 	    }
             *tempdst = 0;
-            if (current_action == GOT_NAMEVALUE_CSET)
+            if (last_action == GOT_NAMEVALUE_CSET)
               append_namevalue(result, &name, &value);
             else
               combine_namevalue(result, &name, &value);
-- 
2.43.0


From 153d56a3f16ab9f0d0a2dd9113ae3a1b5de43248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:34 +0000
Subject: [PATCH 12/55] fix: ignore white space between a MIME parameter's name
 and its '='

The grammar allows it, but the blank was kept as part of the name, so
'filename = x' and 'boundary = x' were never found.
---
 nvp.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/nvp.c b/nvp.c
index 9ab794b..a041a7f 100644
--- a/nvp.c
+++ b/nvp.c
@@ -146,6 +146,13 @@ static void release_nvp(struct nvp *nvp)/*{{{*/
   free(nvp);
 }
 /*}}}*/
+static void trim_trailing_space(char *s)/*{{{*/
+{
+  char *e = s + strlen(s);
+  while (e > s && isspace(*(unsigned char *)(e - 1))) e--;
+  *e = 0;
+}
+/*}}}*/
 struct nvp *make_nvp(struct msg_src *src, char *s, const char *pfx)/*{{{*/
 {
   int current_state;
@@ -259,19 +266,19 @@ struct nvp *make_nvp(struct msg_src *src, char *s, const char *pfx)/*{{{*/
             append_name(result, &name);
             break;
           case GOT_NAME_TRAILING_SPACE:
-            tempdst = name + strlen(name);
-            while (isspace(*--tempdst)) {}
-            *++tempdst = 0;
+            trim_trailing_space(name);
             append_name(result, &name);
             break;
           case GOT_MAJORMINOR:
             append_majorminor(result, &name, &minor);
             break;
           case GOT_NAMEVALUE:
+            trim_trailing_space(name);
             append_namevalue(result, &name, &value);
             break;
           case GOT_NAMEVALUE_CSET:
           case GOT_NAMEVALUE_CCONT:
+            trim_trailing_space(name);
 	    for(tempsrc = tempdst = value; *tempsrc; tempsrc++) {
 		if (*tempsrc == '%') {
 		    int val = -1;
@@ -301,6 +308,7 @@ struct nvp *make_nvp(struct msg_src *src, char *s, const char *pfx)/*{{{*/
               combine_namevalue(result, &name, &value);
             break;
           case GOT_NAMEVALUE_CONT:
+            trim_trailing_space(name);
             combine_namevalue(result, &name, &value);
             break;
           default:
-- 
2.43.0


From 22d46ab0f499d92e6dd791a7a22627decd48ddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:04 +0000
Subject: [PATCH 13/55] fix: relative dates of more than 68 years overflowed

d:100y- put the start of the range in the future and found nothing.
---
 dates.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dates.c b/dates.c
index e2bbf31..7b7a972 100644
--- a/dates.c
+++ b/dates.c
@@ -125,7 +125,7 @@ static int scan_date_expr(char *first, char *last, struct tm *start, struct tm *
   type = discover_type(first, last);
 
   if (type == DS_SCALED) {/*{{{*/
-    int v;
+    time_t v;
     char *p;
     time_t then;
 
-- 
2.43.0


From 8612676266ad92fc77e231d0bea2d7250be054ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:00 +0000
Subject: [PATCH 14/55] fix: notice changes to mailboxes reached through
 symbolic links

With follow_mbox_symlinks, the time and size recorded for a mailbox were those
of the link (lstat), so later changes to the file it points to were never seen.
---
 mbox.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mbox.c b/mbox.c
index e9aca87..a0a12ac 100644
--- a/mbox.c
+++ b/mbox.c
@@ -837,6 +837,8 @@ void build_mbox_lists(struct database *db, const char *folder_base, /*{{{*/
         if (verbose) {
           printf("%s is a link - skipping\n", path);
         }
+      } else if (stat(path, &sb) < 0) {
+        /* dangling link : can't stat */
       } else {
         extant_mboxen[n_extant].full_path = new_string(path);
         extant_mboxen[n_extant].mtime = sb.st_mtime;
-- 
2.43.0


From 6e2c4d5cd2c9449c277dd4cc34488a642a375ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:33 +0000
Subject: [PATCH 15/55] fix: refuse an index file unless all of its magic
 number matches

A file sharing any one of the first three bytes with an index was accepted.
---
 reader.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reader.c b/reader.c
index d7b91ea..e59b159 100644
--- a/reader.c
+++ b/reader.c
@@ -205,8 +205,8 @@ struct read_db *open_db(char *filename)/*{{{*/
   result->data = data;
 
   /*{{{ Magic number check */
-  if (ucdata[0] == HEADER_MAGIC0 ||
-      ucdata[1] == HEADER_MAGIC1 ||
+  if (ucdata[0] == HEADER_MAGIC0 &&
+      ucdata[1] == HEADER_MAGIC1 &&
       ucdata[2] == HEADER_MAGIC2) {
     if (ucdata[3] != HEADER_MAGIC3) {
       fprintf(stderr, "Another version of this program produced the existing database!  Please rebuild.\n");
-- 
2.43.0


From 2c1d4ab4929af0f4825083a51d49d0c2d05ba8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:29 +0000
Subject: [PATCH 16/55] fix: refuse an index whose tables reach beyond the end
 of the file

The bounds were computed in 32 bits and wrapped, and the check of the table of
message types was disabled.
---
 reader.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/reader.c b/reader.c
index e59b159..7ccd9aa 100644
--- a/reader.c
+++ b/reader.c
@@ -229,7 +229,7 @@ struct read_db *open_db(char *filename)/*{{{*/
 
 #define GET_TABLE(dest, start_index, table_size) {\
   unsigned int table_offset = uidata[(start_index)];\
-  if ((table_offset + (table_size)) > uioffset_max) goto corrupt;\
+  if (((size_t) table_offset + (unsigned int)(table_size)) > uioffset_max) goto corrupt;\
   (dest) = uidata + table_offset;\
 }
 #define GET_MSG_TABLE(dest, start_index) GET_TABLE((dest), (start_index), result->n_msgs)
@@ -238,10 +238,7 @@ struct read_db *open_db(char *filename)/*{{{*/
   /* Now build tables of where things are in the file */
   result->n_msgs = uidata[UI_N_MSGS];
   result->msg_type_and_flags = ucdata + uidata[UI_MSG_TYPE_AND_FLAGS];
-  if (0 && (
-    (result->msg_type_and_flags + result->n_msgs) >
-    (ucdata + len)
-  )) {
+  if (((size_t) uidata[UI_MSG_TYPE_AND_FLAGS] + (unsigned int) result->n_msgs) > (size_t) len) {
 corrupt:
     fprintf(stderr, "Database is corrupt. Please rebuild.\n");
     unlock_and_exit(2);
-- 
2.43.0


From 3a8801360659ae9023252cac9e4626d9a6e56108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:57 +0000
Subject: [PATCH 17/55] fix: report a lock held by another run also when the
 lock file is empty

An empty or unterminated lock file (disk full when it was written) made the
program use uninitialised memory and write before the start of its buffer.
---
 dotlock.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dotlock.c b/dotlock.c
index a5b4ead..161f63b 100644
--- a/dotlock.c
+++ b/dotlock.c
@@ -84,8 +84,8 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
         in = fopen(lock_file_name, "r");
         if (in) {
           char line[2048];
-          fgets(line, sizeof(line), in);
-          line[strlen(line)-1] = 0; /* strip trailing newline */
+          if (!fgets(line, sizeof(line), in)) line[0] = 0;
+          line[strcspn(line, "\n")] = 0; /* strip trailing newline */
           fprintf(stderr, "Database %s appears to be locked by (pid,node,user)=(%s)\n", path, line);
           unlink(tname);
           exit(1);
-- 
2.43.0


From 37e664f4b0bad6fb33ba5098142c2d2fce647afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:20 +0000
Subject: [PATCH 18/55] fix: never go on without the lock

When the lock file could not be opened for reading (released in between, or
unreadable), the program went on as if it held the lock, and removed the lock
of the other process at the end.
---
 dotlock.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/dotlock.c b/dotlock.c
index 161f63b..4cda657 100644
--- a/dotlock.c
+++ b/dotlock.c
@@ -25,6 +25,7 @@
 #include <sys/types.h>
 #include <pwd.h>
 #include <unistd.h>
+#include <errno.h>
 
 static char *lock_file_name = NULL;
 
@@ -72,7 +73,8 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   fprintf(out, "%d,%s,%s\n", pid, uu.nodename, pw->pw_name);
   fclose(out);
 
-  if (link(tname, lock_file_name) < 0) {
+  while (link(tname, lock_file_name) < 0) {
+    int already_exists = (errno == EEXIST);
     /* check if link count==2 */
     if (stat(tname, &sb) < 0) {
       fprintf(stderr, "Could not stat the lock file\n");
@@ -89,13 +91,20 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
           fprintf(stderr, "Database %s appears to be locked by (pid,node,user)=(%s)\n", path, line);
           unlink(tname);
           exit(1);
+        } else if (already_exists) {
+          if (errno == ENOENT) {
+            /* The other process has just released the lock : try again */
+            continue;
+          }
+          fprintf(stderr, "Database %s appears to be locked\n", path);
+          unlink(tname);
+          exit(1);
         }
       } else {
         /* lock succeeded apparently */
       }
     }
-  } else {
-    /* lock succeeded apparently */
+    break;
   }
   unlink(tname);
   free(tname);
-- 
2.43.0


From ac552cb7857482aefc79cb07daf3f61d0bb74746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:21 +0000
Subject: [PATCH 19/55] fix: an interrupted run never removes the lock of
 another one

The name of the lock file was known to the signal handler before the lock was
obtained and after it had been released, so that an interrupt at these times
removed the lock of whichever process held it.
---
 dotlock.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/dotlock.c b/dotlock.c
index 4cda657..bb47016 100644
--- a/dotlock.c
+++ b/dotlock.c
@@ -37,7 +37,7 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   struct passwd *pw;
   int pid;
   int len;
-  char *tname;
+  char *tname, *name;
   struct stat sb;
   FILE *out;
 
@@ -52,11 +52,11 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   }
   pid = getpid();
   len = 1 + strlen(path) + 5;
-  lock_file_name = new_array(char, len);
-  sprintf(lock_file_name, "%s.lock", path);
+  name = new_array(char, len);
+  sprintf(name, "%s.lock", path);
 
   if (forced_unlock) {
-    unlock_database();
+    unlink(name);
     forced_unlock = 0;
   }
 
@@ -64,7 +64,7 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   /* add on max width of pid field (allow up to 32 bit pid_t) + 2 '.' chars */
   len += (10 + 2);
   tname = new_array(char, len);
-  sprintf(tname, "%s.%d.%s", lock_file_name, pid, uu.nodename);
+  sprintf(tname, "%s.%d.%s", name, pid, uu.nodename);
   out = fopen(tname, "w");
   if (!out) {
     fprintf(stderr, "Cannot open lock file %s for writing\n", tname);
@@ -73,7 +73,7 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
   fprintf(out, "%d,%s,%s\n", pid, uu.nodename, pw->pw_name);
   fclose(out);
 
-  while (link(tname, lock_file_name) < 0) {
+  while (link(tname, name) < 0) {
     int already_exists = (errno == EEXIST);
     /* check if link count==2 */
     if (stat(tname, &sb) < 0) {
@@ -83,7 +83,7 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
     } else {
       if (sb.st_nlink != 2) {
         FILE *in;
-        in = fopen(lock_file_name, "r");
+        in = fopen(name, "r");
         if (in) {
           char line[2048];
           if (!fgets(line, sizeof(line), in)) line[0] = 0;
@@ -106,6 +106,8 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
     }
     break;
   }
+  /* From here on, the lock is ours to remove */
+  lock_file_name = name;
   unlink(tname);
   free(tname);
   return;
@@ -113,7 +115,10 @@ void lock_database(char *path, int forced_unlock)/*{{{*/
 /*}}}*/
 void unlock_database(void)/*{{{*/
 {
-  if (lock_file_name) unlink(lock_file_name);
+  if (lock_file_name) {
+    unlink(lock_file_name);
+    lock_file_name = NULL; /* no longer ours to remove */
+  }
   return;
 }
 /*}}}*/
-- 
2.43.0


From 426394d2f01f1b775d6146fcf133b11289778bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:57 +0000
Subject: [PATCH 20/55] fix: a NUL byte at the start of a settings line is not
 read before the line

---
 mairix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mairix.c b/mairix.c
index dfef26b..7d3a0a6 100644
--- a/mairix.c
+++ b/mairix.c
@@ -232,7 +232,7 @@ static void parse_rc_file(char *name)/*{{{*/
       exit(2);
     }
 
-    if (line[len-1] == '\n') {
+    if (len > 0 && line[len-1] == '\n') {
       line[len-1] = '\0';
     }
 
-- 
2.43.0


From d2217046302c5d2e928841bbf4139d03bc487a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:46 +0000
Subject: [PATCH 21/55] fix: MAIRIX_MAILDIR_FOLDERS sets the Maildir folders

---
 mairix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mairix.c b/mairix.c
index 7d3a0a6..453f4df 100644
--- a/mairix.c
+++ b/mairix.c
@@ -647,7 +647,7 @@ int main (int argc, char **argv)/*{{{*/
   }
 
   if (getenv("MAIRIX_MAILDIR_FOLDERS")) {
-    maildir_folders = getenv("MAIRIX_MAIDIR_FOLDERS");
+    maildir_folders = getenv("MAIRIX_MAILDIR_FOLDERS");
   }
 
   if (getenv("MAIRIX_MH_FOLDERS")) {
-- 
2.43.0


From 8f87d9837de99f1c7e51e437cfe6483b62f0b08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:02 +0000
Subject: [PATCH 22/55] fix: a folders line without a value does not crash

---
 mairix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mairix.c b/mairix.c
index 453f4df..67cb226 100644
--- a/mairix.c
+++ b/mairix.c
@@ -253,7 +253,7 @@ static void parse_rc_file(char *name)/*{{{*/
 
     /* Now a real line to parse */
     if (!strncasecmp(p, "base", 4)) folder_base = copy_value(p);
-    else if (!strncasecmp(p, "folders", 7)) {
+    else if (!strncasecmp(p, "folders=", 8)) {
       fprintf(stderr, "'folders=' option in rc file is depracated, use 'maildir='\n");
       add_folders(&maildir_folders, copy_value(p));
     }
-- 
2.43.0


From be168cc4bf2cba2a25a69e4a365d85155e01d4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:30 +0000
Subject: [PATCH 23/55] fix: copy the last byte of an mbox that does not end in
 a newline

---
 search.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/search.c b/search.c
index 52ff767..e64f759 100644
--- a/search.c
+++ b/search.c
@@ -749,7 +749,9 @@ static void try_copy_to_path(struct read_db *db, int msg_index, char *target_pat
     if (out) {
       fprintf(out, "X-source-folder: %s\n",
               db->data + db->mbox_paths_table[mbi]);
-      fwrite(start, sizeof(char), msg_len?msg_len-1:0, out);
+      /* Leave off the empty line that separates messages in the mbox, if there is one */
+      if (msg_len > 0 && start[msg_len-1] == '\n') --msg_len;
+      fwrite(start, sizeof(char), msg_len, out);
       fclose(out);
     }
   }
-- 
2.43.0


From bef3cf4e71a918c48c23c6b93137642052d6124a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:03 +0000
Subject: [PATCH 24/55] fix: never overwrite a message through a link left by
 an earlier search

---
 search.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/search.c b/search.c
index e64f759..ca5c241 100644
--- a/search.c
+++ b/search.c
@@ -662,7 +662,9 @@ static void append_data_to_mbox(const char *data, size_t len, void *arg)/*{{{*/
 static void write_to_file(const char *data, size_t len, void *arg)/*{{{*/
 {
   FILE *fp;
-  if (!(fp = fopen((char *)arg, "w"))) {
+  /* Never write through a link that is already there. */
+  if (!(fp = fopen((char *)arg, "wx"))) {
+    if (errno == EEXIST) return;
     fprintf(stderr, "Cannot write matched message to \"%s\": %s\n", (char *)arg, strerror(errno));
     return;
   }
@@ -745,7 +747,8 @@ static void try_copy_to_path(struct read_db *db, int msg_index, char *target_pat
   get_validated_mbox_msg(db, msg_index, &mbi, &data, &mbox_len, &start, &msg_len);
 
   if (start) {
-    out = fopen(target_path, "wb");
+    /* Never write through a link that is already there. */
+    out = fopen(target_path, "wbx");
     if (out) {
       fprintf(out, "X-source-folder: %s\n",
               db->data + db->mbox_paths_table[mbi]);
-- 
2.43.0


From f1613a7d94dc5c98e478c13b3df1540785ba0676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:49 +0000
Subject: [PATCH 25/55] fix: -a with an MH folder adds to it instead of
 colliding with what is there

---
 search.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/search.c b/search.c
index ca5c241..9f98b84 100644
--- a/search.c
+++ b/search.c
@@ -594,6 +594,26 @@ static char *mk_mh_path(int token, char *output_dir)/*{{{*/
   return result;
 }
 /*}}}*/
+static int highest_mh_number(const char *output_dir)/*{{{*/
+{
+  /* The number of the last message there already, new ones go after it. */
+  int result = 0;
+  DIR *d;
+  struct dirent *de;
+
+  d = opendir(output_dir);
+  if (d) {
+    while ((de = readdir(d))) {
+      if (valid_mh_filename_p(de->d_name) && strlen(de->d_name) < 10) {
+        int number = atoi(de->d_name);
+        if (number > result) result = number;
+      }
+    }
+    closedir(d);
+  }
+  return result;
+}
+/*}}}*/
 static int looks_like_maildir_new_p(const char *p)/*{{{*/
 {
   const char *s1, *s2;
@@ -816,6 +836,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
   int i;
   int ii;
   int n_hits;
+  int mh_base;
   int left_anchor;
   int imap_tried = 0;
   struct imap_ll *imapc;
@@ -1134,19 +1155,20 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
       break;
 /*}}}*/
     case FT_MH:/*{{{*/
+      mh_base = highest_mh_number(output_path);
       for (ii=0; ii<n_hits; ii++) {
         i = results[ii];
         switch (rd_msg_type(db, i)) {
           case DB_MSG_FILE:
             {
-              char *target_path = mk_mh_path(ii, output_path);
+              char *target_path = mk_mh_path(mh_base + ii, output_path);
               create_symlink(db->data + db->path_offsets[i], target_path);
               free(target_path);
             }
             break;
           case DB_MSG_IMAP:
             {
-              char *target_path = mk_mh_path(ii, output_path);
+              char *target_path = mk_mh_path(mh_base + ii, output_path);
               GET_IMAP;
               if (imapc) imap_fetch_message_raw(db->data + db->path_offsets[i], imapc, write_to_file, target_path);
               free(target_path);
@@ -1154,7 +1176,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
             break;
           case DB_MSG_MBOX:
             {
-              char *target_path = mk_mh_path(ii, output_path);
+              char *target_path = mk_mh_path(mh_base + ii, output_path);
               try_copy_to_path(db, i, target_path);
               free(target_path);
             }
-- 
2.43.0


From 7e7867add1776a03e326b2d56b20fdd8141406ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:57 +0000
Subject: [PATCH 26/55] fix: do not append an mbox message that has changed to
 an IMAP folder

---
 search.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/search.c b/search.c
index 9f98b84..1dfe8b8 100644
--- a/search.c
+++ b/search.c
@@ -1350,7 +1350,9 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
               unsigned char *start, *data;
               int mbox_len, msg_len, mbi;
               get_validated_mbox_msg(db, i, &mbi, &data, &mbox_len, &start, &msg_len);
-              imap_append_new_message(imapc, output_path, start, msg_len, is_seen, is_replied, is_flagged);
+              if (start) {
+                imap_append_new_message(imapc, output_path, start, msg_len, is_seen, is_replied, is_flagged);
+              }
               if (data) {
                 free_ro_mapping(data, mbox_len);
               }
-- 
2.43.0


From e7499725159f0a451dde3fbaf49b7c7e7a0b9719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:00 +0000
Subject: [PATCH 27/55] fix: a result folder on another device is not refused
 for its inode number

---
 mairix.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mairix.c b/mairix.c
index 67cb226..52067c7 100644
--- a/mairix.c
+++ b/mairix.c
@@ -125,7 +125,8 @@ int member_of (const char *complete_mfolder,
     if (stat (complete_mfolder, &mfolder_sb) != 0 ||
         stat (paths[i], &src_folder_sb) != 0)
       continue;
-    if (mfolder_sb.st_ino == src_folder_sb.st_ino)
+    if (mfolder_sb.st_ino == src_folder_sb.st_ino &&
+        mfolder_sb.st_dev == src_folder_sb.st_dev)
       return 1;
   }
 
-- 
2.43.0


From 2b58fcf993e4ba0b363aa15499298763d16b7d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:19 +0000
Subject: [PATCH 28/55] fix: a cached decompressed mbox is not unmapped after
 use

---
 rfc822.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rfc822.c b/rfc822.c
index f0d9b89..362e1b6 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1332,6 +1332,8 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
 
     ro = find_ro_cache(filename, NULL);
     if (ro) {
+      /* The cached map stays, see below */
+      data_alloc_type = ALLOC_NONE;
       *data = ro->map;
       *len = ro->len;
       return;
-- 
2.43.0


From 27094fe9037d1b0e97088f5f742bb6795aa5a57e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:39 +0000
Subject: [PATCH 29/55] fix: an IMAP folder is not taken for selected after
 another could not be

---
 imap.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/imap.c b/imap.c
index 6e3105e..6fa6cd3 100644
--- a/imap.c
+++ b/imap.c
@@ -1255,6 +1255,10 @@ long exists = 0;
 		return ll->selected_folder_uidvalidity;
 	}
 
+	/* Whether this succeeds or not, the server leaves the old folder. */
+	if (ll->selected_folder) free(ll->selected_folder);
+	ll->selected_folder = NULL;
+
 	command_name = need_write ? "SELECT" : "EXAMINE";
 	cmd = imap_ll_build(
 		TLTYPE_TAGGED,
@@ -1307,7 +1311,6 @@ long exists = 0;
 		return NULL;
 	}
 
-	if (ll->selected_folder) free(ll->selected_folder);
 	if (ll->selected_folder_uidvalidity) free(ll->selected_folder_uidvalidity);
 	ll->selected_folder = malloc(foldername_len);
 	if (ll->selected_folder) {
-- 
2.43.0


From c5b70c446c4afd1cc8e6373d88977a4671ee6983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:50 +0000
Subject: [PATCH 30/55] fix: short untagged IMAP responses do not crash

---
 imapinterface.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/imapinterface.c b/imapinterface.c
index 2dcb4a9..6a1efcc 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -105,10 +105,10 @@ long exists;
 		if (!l2) continue;
 		if (l2->type != TLTYPE_ATOM) continue;	/* sequence */
 		l2 = l2->next;
-		if (l2->type != TLTYPE_ATOM) continue;
+		if ((!l2) || (l2->type != TLTYPE_ATOM)) continue;
 		if (0 != strcmp(l2->leaf, "FETCH")) continue;
 		l2 = l2->next;
-		if (l2->type != TLTYPE_LIST) continue;
+		if ((!l2) || (l2->type != TLTYPE_LIST)) continue;
 		uid = NULL;
 		deleted = 0;
 		for (l2 = l2->first; l2 && (l2->next); l2 = l2->next) {
@@ -216,10 +216,10 @@ const char *actual_uidvalidity, *got_uid, *got_raw;
 		if (!l2) continue;
 		if (l2->type != TLTYPE_ATOM) continue;	/* sequence */
 		l2 = l2->next;
-		if (l2->type != TLTYPE_ATOM) continue;
+		if ((!l2) || (l2->type != TLTYPE_ATOM)) continue;
 		if (0 != strcmp(l2->leaf, "FETCH")) continue;
 		l2 = l2->next;
-		if (l2->type != TLTYPE_LIST) continue;
+		if ((!l2) || (l2->type != TLTYPE_LIST)) continue;
 		got_uid = got_raw = NULL;
 		for (l2 = l2->first; l2 && (l2->next); l2 = l2->next) {
 			if (l2->type != TLTYPE_ATOM) continue;
-- 
2.43.0


From 69d3bb5697edb269a6dd394294204782549ae5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:54 +0000
Subject: [PATCH 31/55] fix: backslashes in quoted strings from an IMAP server
 are escapes

---
 imap.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/imap.c b/imap.c
index 6fa6cd3..025dea0 100644
--- a/imap.c
+++ b/imap.c
@@ -253,7 +253,7 @@ struct pollfd pfd;
 			cur = *(ll->bufferp);
 			ll->bufferp++;
 			ll->buffer_left--;
-			if ((cur == 10) && (linestate < 7)) {
+			if ((cur == 10) && ((linestate < 7) || (linestate == 9))) {
 				if (curtoken && (linestate == 4)) {
 					growlist(&node, mktoken(TLTYPE_ATOM, curtoken, curtoken_now));
 				} else if (curtoken) {
@@ -369,6 +369,8 @@ token_extend:
 						growlist(&node, mktoken(TLTYPE_STRING, curtoken, curtoken_now));
 						curtoken = NULL;
 						linestate = 4;
+					} else if (cur == 92) {
+						linestate = 9;
 					} else {
 						goto token_extend;
 					}
@@ -408,6 +410,10 @@ token_extend:
 						linestate = 4;
 					}
 					break;
+				case 9:
+					/* character after a backslash in a quoted string */
+					linestate = 5;
+					goto token_extend;
 			}
 		}
 #ifdef USE_OPENSSL
-- 
2.43.0


From 9cace0686241079a9a8415e84f7efbf238596fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:54 +0000
Subject: [PATCH 32/55] fix: strings with a backslash are sent to an IMAP
 server as they are

---
 imap.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/imap.c b/imap.c
index 025dea0..32472c7 100644
--- a/imap.c
+++ b/imap.c
@@ -554,6 +554,7 @@ char close = 0;
 				if (
 					(t->leaf[i] < 32) ||
 					(t->leaf[i] == 34) ||
+					(t->leaf[i] == 92) ||
 					(t->leaf[i] > 126)
 				) break;
 			}
-- 
2.43.0


From 409dea684d0d594278b1dc01597a435ff047ff66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:54 +0000
Subject: [PATCH 33/55] fix: an IMAP server that stops responding does not
 crash mairix

---
 imap.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/imap.c b/imap.c
index 32472c7..2e55d9c 100644
--- a/imap.c
+++ b/imap.c
@@ -844,6 +844,7 @@ imap_ll_append(struct imap_ll_tokenlist *list, struct imap_ll_tokenlist *item)
 const char *
 imap_ll_status(struct imap_ll_tokenlist *t)
 {
+	if (!t) return "BAD"; /* no response */
 	t = t->last->first;
 	if (!t) return "BAD";
 	if ((t->type) != TLTYPE_ATOM) return "BAD";
@@ -993,6 +994,7 @@ int plusindent = 0;
 int i;
 const char *close = NULL;
 
+	if (!t) return;
 	switch (t->type) {
 		case TLTYPE_UNTAGGED:
 			for (i = 0; i < indent; i++) fputc(9, out);
@@ -1052,9 +1054,10 @@ const char *close = NULL;
 static struct imap_ll_tokenlist *
 find_capability_list_in_untagged_response(struct imap_ll_tokenlist *l)
 {
-	for (l = l->first; l; l = l->next) {
+	for (l = l ? l->first : NULL; l; l = l->next) {
 		if (
 			((l->type) == TLTYPE_UNTAGGED) &&
+			(l->first) &&
 			((l->first->type) == TLTYPE_ATOM) &&
 			(0 == strcmp(l->first->leaf, "CAPABILITY"))
 		) return l->first->next;
-- 
2.43.0


From c0b85703f01981b09d88c1ad1df1bf5bf393c460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:54 +0000
Subject: [PATCH 34/55] fix: an IMAP literal whose size overflows is refused

---
 imap.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/imap.c b/imap.c
index 2e55d9c..ae66f2c 100644
--- a/imap.c
+++ b/imap.c
@@ -1,5 +1,6 @@
 #include <stdio.h>
 #include <stdlib.h>
+#include <limits.h>
 #include <stdarg.h>
 #include <unistd.h>
 #include <string.h>
@@ -380,6 +381,12 @@ token_extend:
 					if (cur == 125) {
 						linestate = 7;
 					} else if ((cur >= '0') && (cur <= '9')) {
+						if (recv_tag > (INT_MAX / 10 - 1)) {
+							fprintf(stderr, "imap_ll_waitline: literal too long\n");
+							if (curtoken) free(curtoken);
+							imap_ll_freeline(line);
+							return NULL;
+						}
 						recv_tag *= 10;
 						recv_tag += cur - '0';
 					} else {
-- 
2.43.0


From 1982af15e137d06357047f6dcc0221e530e61c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:54 +0000
Subject: [PATCH 35/55] fix: an IMAP result folder is created for messages from
 elsewhere, too

---
 imapinterface.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/imapinterface.c b/imapinterface.c
index 6a1efcc..7e3def5 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -380,7 +380,6 @@ imap_append_new_message(
 {
 struct imap_ll_tokenlist *flags, *cmd, *result;
 
-	if (!imap_select(imapc, folder, -1, 1, NULL)) return;
 	flags = imap_ll_build(TLTYPE_LIST, TLTYPE_END);
 	if (seen) {
 		imap_ll_append(flags, imap_ll_build(
-- 
2.43.0


From b12d57a97b0bbf0bfe6848c43f907c86c3fd791c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:54 +0000
Subject: [PATCH 36/55] fix: an IMAP message that cannot be fetched is skipped

---
 imapinterface.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/imapinterface.c b/imapinterface.c
index 7e3def5..4e3d701 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -269,6 +269,7 @@ make_rfc822_from_imap(const char *pseudopath, struct imap_ll *imapc)
 struct make_rfc822_from_imap_s s;
 
 	s.pseudopath = pseudopath;
+	s.r = NULL;
 	imap_fetch_message_raw(pseudopath, imapc, callback822, &s);
 	return s.r;
 }
-- 
2.43.0


From 32a8c1e5f323b294a8b4f5013d6c25153903399c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:05 +0000
Subject: [PATCH 37/55] fix: a certificate name with a NUL character is not
 accepted

---
 imap.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/imap.c b/imap.c
index ae66f2c..df4e522 100644
--- a/imap.c
+++ b/imap.c
@@ -959,10 +959,15 @@ certfail:
 		fprintf(stderr, "STARTTLS: no peer certificate?\n");
 		goto certfail;
 	}
-	if (X509_NAME_get_text_by_NID(X509_get_subject_name(peer), NID_commonName, buf, sizeof(buf)) == -1) {
+	ret = X509_NAME_get_text_by_NID(X509_get_subject_name(peer), NID_commonName, buf, sizeof(buf));
+	if (ret == -1) {
 		fprintf(stderr, "STARTTLS: no common name in certificate?\n");
 		goto certfail;
 	}
+	if (ret != strlen(buf)) {
+		fprintf(stderr, "STARTTLS: NUL character in certificate common name\n");
+		goto certfail;
+	}
 	if (!servername) goto certok; /* caller does not want us to check */
 	if (0 != strcasecmp(buf, servername)){
 		/* Certificate name does not match exactly.
-- 
2.43.0


From 409f12c9bd688cbec688b55e2df2d357ac67b74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:28 +0000
Subject: [PATCH 38/55] fix: nothing an IMAP server sends before TLS is taken
 for part of it

---
 imap.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/imap.c b/imap.c
index df4e522..36b71f1 100644
--- a/imap.c
+++ b/imap.c
@@ -994,6 +994,8 @@ certfail:
 	}
 
 certok:
+	/* Anything sent ahead in the clear is not to be trusted. */
+	ll->buffer_left = 0;
 	ll->ssl = ssl;
 	return IMAP_LL_STARTTLS_SUCCESS;
 }
-- 
2.43.0


From fb24e6a2988e357ffea6640939cbeacaed69f58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:17 +0000
Subject: [PATCH 39/55] fix: a mailbox that could not be read for once is not
 taken for empty

---
 rfc822.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index 362e1b6..a3db643 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1320,6 +1320,7 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
   {
     report_error("stat", filename);
     *data = NULL;
+    *len = -1; /* 0 would mean it is empty */
     return;
   }
 
@@ -1355,7 +1356,7 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
     }
     p = new_array(unsigned char, SIZE_STEP);
     cur_read = xx_zread(zf, p, SIZE_STEP);
-    if (fwrite(p, cur_read, 1, tmpf) != 1) {
+    if (cur_read && fwrite(p, cur_read, 1, tmpf) != 1) {
       fprintf(stderr, "failed writing to temp file for %s\n", filename);
       goto comp_error;
     }
@@ -1399,7 +1400,7 @@ void create_ro_mapping(const char *filename, unsigned char **data, int *len, enu
 
 comp_error:
     *data = NULL;
-    *len = 0;
+    *len = -1; /* 0 would mean it is empty */
     if (tmpf)
       fclose(tmpf);
     return;
-- 
2.43.0


From f6dcc8f71e8c233fafa88b21776c9e6be141120c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:57 +0000
Subject: [PATCH 40/55] fix: the lock is released when a mail file cannot be
 unmapped

---
 rfc822.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rfc822.c b/rfc822.c
index a3db643..6a49adb 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -1449,7 +1449,7 @@ void free_ro_mapping(unsigned char *data, int len)/*{{{*/
     r = munmap(data, len);
     if(r < 0) {
       fprintf(stderr, "munmap() errord\n");
-      exit(1);
+      unlock_and_exit(1);
     }
   }
 }
-- 
2.43.0


From 232ee7757a14b9f4e42869bff503aba39b205923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:11 +0000
Subject: [PATCH 41/55] fix: a message that could not be read for once is not
 indexed as empty

---
 db.c            | 15 +++++++++++++++
 imapinterface.c |  5 ++++-
 rfc822.c        |  7 +++++++
 3 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/db.c b/db.c
index 3b37ace..e699e56 100644
--- a/db.c
+++ b/db.c
@@ -26,6 +26,7 @@
 #include "reader.h"
 #include <ctype.h>
 #include <assert.h>
+#include <errno.h>
 #include <sys/time.h>
 #include <unistd.h>
 #include "imapinterface.h"
@@ -698,6 +699,7 @@ static void scan_new_messages(struct database *db, int start_at, struct imap_ll
   int i;
   for (i=start_at; i<db->n_msgs; i++) {
     struct rfc822 *msg = NULL;
+    int unreadable = 0;
     int len = strlen(db->msgs[i].src.mpf.path);
 
     if (len > 10 && !strcmp(db->msgs[i].src.mpf.path + len - 11, "/.gitignore"))
@@ -712,11 +714,15 @@ static void scan_new_messages(struct database *db, int start_at, struct imap_ll
         break;
       case MTY_FILE:
         if (verbose) fprintf(stderr, "Scanning <%s>\n", db->msgs[i].src.mpf.path);
+        errno = 0;
         msg = make_rfc822(db->msgs[i].src.mpf.path);
+        unreadable = !msg && errno;
         break;
       case MTY_IMAP:
         if (verbose) fprintf(stderr, "Scanning IMAP <%s>\n", db->msgs[i].src.mpf.path);
+        errno = 0;
         msg = make_rfc822_from_imap(db->msgs[i].src.mpf.path, imapc);
+        unreadable = !msg && errno;
         break;
     }
     if(msg)
@@ -728,6 +734,15 @@ static void scan_new_messages(struct database *db, int start_at, struct imap_ll
     }
     else
       fprintf(stderr, "Skipping %s (could not parse message)\n", db->msgs[i].src.mpf.path);
+    if (unreadable)
+    {
+      /* Leave it out, so that the next run tries it again */
+      free(db->msgs[i].src.mpf.path);
+      --db->n_msgs;
+      memmove(db->msgs + i, db->msgs + i + 1, (db->n_msgs - i) * sizeof(struct msgpath));
+      memmove(db->type + i, db->type + i + 1, (db->n_msgs - i) * sizeof(enum message_type));
+      --i;
+    }
   }
 }
 /*}}}*/
diff --git a/imapinterface.c b/imapinterface.c
index 4e3d701..d717ad6 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -1,5 +1,6 @@
 #include <stdio.h>
 #include <string.h>
+#include <errno.h>
 #ifdef USE_OPENSSL
 #include <openssl/ssl.h>
 #include <openssl/err.h>
@@ -270,7 +271,9 @@ struct make_rfc822_from_imap_s s;
 
 	s.pseudopath = pseudopath;
 	s.r = NULL;
-	imap_fetch_message_raw(pseudopath, imapc, callback822, &s);
+	/* If there is no message, errno is 0 if it was received at all */
+	if (imap_fetch_message_raw(pseudopath, imapc, callback822, &s)) errno = 0;
+	else errno = EIO;
 	return s.r;
 }
 
diff --git a/rfc822.c b/rfc822.c
index 6a49adb..a41c514 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -35,6 +35,7 @@
 #include "nvp.h"
 
 #include <assert.h>
+#include <errno.h>
 #include <ctype.h>
 #include <sys/types.h>
 #include <sys/stat.h>
@@ -1463,6 +1464,7 @@ static struct msg_src *setup_msg_src(char *filename)/*{{{*/
   return &result;
 }
 /*}}}*/
+/* If there is no message, errno is 0 if the file could be read at all */
 struct rfc822 *make_rfc822(char *filename)/*{{{*/
 {
   int len;
@@ -1483,6 +1485,11 @@ struct rfc822 *make_rfc822(char *filename)/*{{{*/
     result = data_to_rfc822(src, (char *) data, len, NULL);
 
     free_ro_mapping(data, len);
+    errno = 0;
+  } else if (len == 0) {
+    errno = 0;
+  } else if (!errno) {
+    errno = EIO;
   }
 
   return result;
-- 
2.43.0


From 013001c4e0ce547144e933a07920a53df536c3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:31 +0000
Subject: [PATCH 42/55] fix: the old index stays whole until the new one can be
 written

---
 writer.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/writer.c b/writer.c
index a61cf1e..6d121de 100644
--- a/writer.c
+++ b/writer.c
@@ -113,14 +113,9 @@ static void create_rw_mapping(char *filename, size_t len, int *out_fd, char **ou
       report_error("write", filename);
       unlock_and_exit(2);
     }
-  } else if (sb.st_size > len) {
-    /* Truncate */
-    if (ftruncate(fd, len) < 0) {
-      report_error("ftruncate", filename);
-      unlock_and_exit(2);
-    }
   } else {
-    /* Exactly the right length already - nothing to do! */
+    /* Long enough already.  A longer file is truncated after it has been
+     * written : until then the old database is still valid. */
   }
 
   data = mmap(0, len, PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
@@ -619,6 +614,10 @@ void write_database(struct database *db, char *filename, int do_integrity_checks
     report_error("munmap", filename);
     unlock_and_exit(2);
   }
+  if (ftruncate(fd, file_len) < 0) {
+    report_error("ftruncate", filename);
+    unlock_and_exit(2);
+  }
   if (fsync(fd) < 0) {
     report_error("fsync", filename);
     unlock_and_exit(2);
-- 
2.43.0


From f754b2ee351144fa1e19e15fbf51e8af688b50ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:19 +0000
Subject: [PATCH 43/55] fix: a partly written index is not taken for a whole
 one

---
 writer.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/writer.c b/writer.c
index 6d121de..2327c50 100644
--- a/writer.c
+++ b/writer.c
@@ -243,18 +243,22 @@ static void compute_mapping(struct database *db, struct write_map *map)/*{{{*/
   map->beyond_last_ui_offset = total;
 }
 /*}}}*/
-static void write_header(char *data, unsigned int *uidata, struct database *db, struct write_map *map)/*{{{*/
+static void write_magic(char *data, int complete)/*{{{*/
 {
   /* Endianness-independent writes - at least the magic number will be
    * recognized if the database is read by this program on a machine of
-   * opposite endianness. */
-  unsigned char *ucdata = (unsigned char *) data;
-
-  ucdata[0] = HEADER_MAGIC0;
-  ucdata[1] = HEADER_MAGIC1;
-  ucdata[2] = HEADER_MAGIC2;
-  ucdata[3] = HEADER_MAGIC3;
-
+   * opposite endianness.  While the rest is being written, there is no magic
+   * number : if we get interrupted, the database will be seen to be corrupt. */
+  volatile unsigned char *ucdata = (volatile unsigned char *) data;
+
+  ucdata[0] = complete ? HEADER_MAGIC0 : 0;
+  ucdata[1] = complete ? HEADER_MAGIC1 : 0;
+  ucdata[2] = complete ? HEADER_MAGIC2 : 0;
+  ucdata[3] = complete ? HEADER_MAGIC3 : 0;
+}
+/*}}}*/
+static void write_header(char *data, unsigned int *uidata, struct database *db, struct write_map *map)/*{{{*/
+{
   uidata[UI_ENDIAN] = 0x44332211; /* For checking reversed endianness on read */
   uidata[UI_N_MSGS] = db->n_msgs;
   uidata[UI_MSG_CDATA] = map->path_offset; /* offset table of ptrs to filenames */
@@ -595,6 +599,7 @@ void write_database(struct database *db, char *filename, int do_integrity_checks
   uidata = (unsigned int *) data; /* align(int) < align(page)! */
   cdata = data + (4 * map.beyond_last_ui_offset);
 
+  write_magic(data, 0);
   write_header(data, uidata, db, &map);
   cdata = write_type_and_flag_table(db, uidata, data, cdata);
   cdata = write_messages(db, &map, uidata, data, cdata);
@@ -608,6 +613,8 @@ void write_database(struct database *db, char *filename, int do_integrity_checks
   cdata = write_toktable(db->attachment_name, &map.attachment_name, uidata, data, cdata, "Attachment Name");
   cdata = write_toktable2(db->msg_ids, &map.msg_ids, uidata, data, cdata, "(Threading)");
 
+  write_magic(data, 1);
+
   /* Write data */
   /* Unmap / close file */
   if (munmap(data, file_len) < 0) {
-- 
2.43.0


From 78d2cb7dfac755bbaff1f2f74c8ebdb142a83e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:53 +0000
Subject: [PATCH 44/55] fix: a search by path does not abort when there are
 IMAP messages

match_substring_in_paths had no case for them and ran into its assertion.
---
 search.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/search.c b/search.c
index 1dfe8b8..96b465f 100644
--- a/search.c
+++ b/search.c
@@ -308,6 +308,7 @@ static void match_substring_in_paths(struct read_db *db, char *substring, int ma
     unsigned int mbix, msgix;
     switch (rd_msg_type(db, i)) {
       case DB_MSG_FILE:
+      case DB_MSG_IMAP:
         token = db->data + db->path_offsets[i];
         break;
       case DB_MSG_MBOX:
-- 
2.43.0


From 2f42267d0c13c6e8326c663a5660947f764d1f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:29 +0000
Subject: [PATCH 45/55] fix: an attachment's name is found however Name= is
 spelt

Parameter names are case-insensitive (RFC 2045), also those of the
numbered pieces of RFC 2231.
---
 nvp.c    | 2 +-
 rfc822.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nvp.c b/nvp.c
index a041a7f..9d16858 100644
--- a/nvp.c
+++ b/nvp.c
@@ -108,7 +108,7 @@ static void combine_namevalue(struct nvp *nvp, char **name, char **value)/*{{{*/
    * complete (e.g. filename=..; filename*0*=..; filename*1*=..) */
   for (n=nvp->last; n; n=n->prev) {
     if (n->type == NVP_NAMEVALUE) {
-      if (!strcmp(n->lhs, *name)) {
+      if (!strcasecmp(n->lhs, *name)) {
         char *new_rhs;
         new_rhs = new_array(char, strlen(n->rhs) + strlen(*value) + 1);
         strcpy(new_rhs, n->rhs);
diff --git a/rfc822.c b/rfc822.c
index a41c514..5603952 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -724,7 +724,7 @@ static void do_body(struct msg_src *src,
         } else {
           /* Some messages have name=... in content-type: instead of
            * filename=... in content-disposition. */
-          lookup = nvp_lookup(ct_nvp, "name");
+          lookup = nvp_lookupcase(ct_nvp, "name");
           if (lookup) {
             new_att->filename = new_string(lookup);
           } else {
-- 
2.43.0


From 3eaa9346b08220094ef51cddcaf1f4a67ff44722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:10 +0000
Subject: [PATCH 46/55] fix: a message file whose size has changed is scanned
 again

The manual promises that both time and size are compared, but only the time
was: a file rewritten within the same second, or with its time kept, stayed
indexed as it was.
---
 db.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/db.c b/db.c
index e699e56..d0d9907 100644
--- a/db.c
+++ b/db.c
@@ -924,7 +924,7 @@ int update_database(struct database *db, struct msgpath *sorted_paths, int n_msg
 {
   /* The incoming list must be sorted into order, to make binary searching
    * possible.  We search for each existing path in the incoming sorted array.
-   * If the date differs, or the file no longer exist, the existing database
+   * If the date or size differs, or the file no longer exist, the existing database
    * entry for that file is nulled.  (These are only recovered if the database
    * is actively compressed.)  If the date differed, a new entry for the file
    * is put at the end of the list.  Similarly, any new file goes at the end.
@@ -957,7 +957,9 @@ int update_database(struct database *db, struct msgpath *sorted_paths, int n_msg
           } else {
             switch (do_stat(sorted_paths + matched_index)) {
               case STAT_RESULT_FILE:
-                if (sorted_paths[matched_index].src.mpf.mtime == db->msgs[i].src.mpf.mtime) {
+                /* The index has only 32 bits for the size. */
+                if (sorted_paths[matched_index].src.mpf.mtime == db->msgs[i].src.mpf.mtime &&
+                    (unsigned int) sorted_paths[matched_index].src.mpf.size == (unsigned int) db->msgs[i].src.mpf.size) {
                   /* Treat stale files as though the path has changed. */
                   file_in_db[matched_index] = 1;
                   file_in_new_list[i] = 1;
-- 
2.43.0


From 6c6db12470d49a7e3895fee0de8a7df5da78800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:45 +0000
Subject: [PATCH 47/55] fix: a NUL byte next to a boundary does not end a
 multipart message

Both searches for the end of a line stopped at it, so the parts after it
were not indexed or not separated.
---
 rfc822.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index 5603952..e2561e3 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -898,7 +898,7 @@ static void do_multipart(struct msg_src *src,
       ))
         boundary_ok = 0;
       if (!boundary_ok) {
-        char *eol = strchr(b1, '\n');
+        char *eol = memchr(b1, '\n', be - b1);
         if (!eol) {
           fprintf(stderr, "Oops, didn't find another normal boundary in %s\n",
               format_msg_src(src));
@@ -916,9 +916,9 @@ static void do_multipart(struct msg_src *src,
     }
 
     b0 = b1;
-    line_after_b0 = strchr(b0, '\n');
+    line_after_b0 = memchr(b0, '\n', be - b0);
     if (line_after_b0 == 0)
-      line_after_b0 = b0 + strlen(b0);
+      line_after_b0 = be;
     else
       ++line_after_b0;
   } while (b1 < be && !looking_at_end_boundary);
-- 
2.43.0


From 47be5b52a59f4d0b43002de5849799d79462faa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:18 +0000
Subject: [PATCH 48/55] fix: a comma in a comment after the date does not hide
 the date

Without a week day, the text after that comma was taken for the date.
---
 rfc822.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rfc822.c b/rfc822.c
index e2561e3..6198931 100644
--- a/rfc822.c
+++ b/rfc822.c
@@ -935,8 +935,9 @@ static time_t parse_rfc822_date(char *date_string)/*{{{*/
      */
 
   s = date_string;
-  z = strchr(s, ',');
-  if (z) s = z + 1;
+  /* A comma further on is in a comment. */
+  for (z = s; *z && *z != ',' && !isdigit((unsigned char) *z); z++) ;
+  if (*z == ',') s = z + 1;
   while (*s && isspace(*s)) s++;
   /* Should now be looking at day number */
   if (!isdigit(*s)) goto tough_cheese;
-- 
2.43.0


From 1ffa362f25554053f7f715dc7afecc797cb57240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:46 +0000
Subject: [PATCH 49/55] fix: a search by path does not forget what other keys
 have matched

---
 search.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/search.c b/search.c
index 96b465f..fd264d6 100644
--- a/search.c
+++ b/search.c
@@ -315,8 +315,7 @@ static void match_substring_in_paths(struct read_db *db, char *substring, int ma
         decode_mbox_indices(db->data + db->path_offsets[i], &mbix, &msgix);
         token = db->data + db->mbox_paths_table[mbix];
         break;
-      case DB_MSG_DEAD:
-        hits[i] = 0; /* never match on dead paths */
+      case DB_MSG_DEAD: /* never match on dead paths */
         goto next_message;
     }
 
@@ -326,19 +325,19 @@ static void match_substring_in_paths(struct read_db *db, char *substring, int ma
       /* Optimise common cases for few errors to allow optimizer to keep bitmaps
        * in registers */
       case 0:
-        hits[i] = substring_match_0(a, hit, left_anchor, token);
+        hits[i] |= substring_match_0(a, hit, left_anchor, token);
         break;
       case 1:
-        hits[i] = substring_match_1(a, hit, left_anchor, token);
+        hits[i] |= substring_match_1(a, hit, left_anchor, token);
         break;
       case 2:
-        hits[i] = substring_match_2(a, hit, left_anchor, token);
+        hits[i] |= substring_match_2(a, hit, left_anchor, token);
         break;
       case 3:
-        hits[i] = substring_match_3(a, hit, left_anchor, token);
+        hits[i] |= substring_match_3(a, hit, left_anchor, token);
         break;
       default:
-        hits[i] = substring_match_general(a, hit, left_anchor, token, max_errors, r, nr);
+        hits[i] |= substring_match_general(a, hit, left_anchor, token, max_errors, r, nr);
         break;
     }
 next_message:
-- 
2.43.0


From 60e5dab5f14ba9b70d161704efba1bedf0430134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:17 +0000
Subject: [PATCH 50/55] fix: sizes of 2048m and more can be searched for

---
 search.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/search.c b/search.c
index fd264d6..bcb6568 100644
--- a/search.c
+++ b/search.c
@@ -378,12 +378,12 @@ static void match_string_in_table2(struct read_db *db, struct toktable2_db *tt,
   }
 }
 /*}}}*/
-static int parse_size_expr(char *x)/*{{{*/
+static long long parse_size_expr(char *x)/*{{{*/
 {
-  int result;
+  long long result;
   int n;
 
-  if (1 == sscanf(x, "%d%n", &result, &n)) {
+  if (1 == sscanf(x, "%lld%n", &result, &n)) {
     x += n;
     switch (*x) {
       case 'k':
@@ -405,7 +405,7 @@ static int parse_size_expr(char *x)/*{{{*/
   }
 }
 /*}}}*/
-static void parse_size_range(char *size_expr, int *has_start, int *start, int *has_end, int *end)/*{{{*/
+static void parse_size_range(char *size_expr, int *has_start, long long *start, int *has_end, long long *end)/*{{{*/
 {
   char *x = size_expr;
   char *dash;
@@ -445,7 +445,7 @@ static void parse_size_range(char *size_expr, int *has_start, int *start, int *h
 /*}}}*/
 static void find_size_matches_in_table(struct read_db *db, char *size_expr, char *hits)/*{{{*/
 {
-  int start, end;
+  long long start, end;
   int has_start, has_end, start_cond, end_cond;
   int i;
 
@@ -454,7 +454,7 @@ static void find_size_matches_in_table(struct read_db *db, char *size_expr, char
   if (has_start && has_end) {
     /* Allow user to put the endpoints in backwards */
     if (start > end) {
-      int temp = start;
+      long long temp = start;
       start = end;
       end = temp;
     }
-- 
2.43.0


From e49d369c55c8a4ecd95b3897fb41e5010a0bb8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:17 +0000
Subject: [PATCH 51/55] fix: searching for a message id in a damaged index does
 not crash

---
 search.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search.c b/search.c
index bcb6568..bee326c 100644
--- a/search.c
+++ b/search.c
@@ -371,7 +371,7 @@ static void match_string_in_table2(struct read_db *db, struct toktable2_db *tt,
 
   for (i=0; i<tt->n; i++) {
     token = get_db_token(db, tt->tok_offsets[i]);
-    if (!strcmp(key, token)) {
+    if (token && !strcmp(key, token)) {
       /* get all matching files */
       mark_hits_in_table2(db, tt, i, hits);
     }
-- 
2.43.0


From 5c4bebdeb2514379b2f6e44b811b32a7664898df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:15 +0000
Subject: [PATCH 52/55] fix: an excerpt shows the date of the message

Dates are stored as the start of the day by local time, so that east of
Greenwich the day before was shown.
---
 search.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search.c b/search.c
index bee326c..718d6fb 100644
--- a/search.c
+++ b/search.c
@@ -1309,7 +1309,7 @@ static int do_search(struct read_db *db, char **args, char *output_path, int sho
                                     printf("  Message-ID: %s\n", parsed->hdrs.message_id);
           if (parsed->hdrs.in_reply_to)
                                     printf("  In-Reply-To:%s\n", parsed->hdrs.in_reply_to);
-          thetm = gmtime(&parsed->hdrs.date);
+          thetm = localtime(&parsed->hdrs.date);
           strftime(datebuf, sizeof(datebuf), "%a, %d %b %Y", thetm);
           printf("  Date:        %s\n", datebuf);
           free_rfc822(parsed);
-- 
2.43.0


From 19b2844d5c12def81ffdaec0d508b9d39911472d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:05 +0000
Subject: [PATCH 53/55] fix: a result mailbox has an empty line after a message
 of one character

---
 search.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search.c b/search.c
index 718d6fb..abca6db 100644
--- a/search.c
+++ b/search.c
@@ -647,7 +647,7 @@ static void mbox_terminate(const unsigned char *data, int len, FILE *out)/*{{{*/
     fputs("\n", out);
   else if (len == 1) {
     if (data[0] != '\n')
-      fputs("\n", out);
+      fputs("\n\n", out);
   }
   else if (data[len-1] != '\n')
     fputs("\n\n", out);
-- 
2.43.0


From 09abd900c1b3a17d53dfa8997f1ae483b24685d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:18 +0000
Subject: [PATCH 54/55] fix: a result mailbox has an empty line after a message
 of an IMAP server

---
 search.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/search.c b/search.c
index abca6db..8d9a00d 100644
--- a/search.c
+++ b/search.c
@@ -675,7 +675,7 @@ static void append_data_to_mbox(const char *data, size_t len, void *arg)/*{{{*/
   FILE *out = (FILE *)arg;
   fprintf(out, "From mairix@mairix Mon Jan  1 12:34:56 1970\n");
   fwrite (data, sizeof(unsigned char), len, out);
-  fputc('\n', out);
+  mbox_terminate((const unsigned char *) data, len, out);
   return;
 }
 /*}}}*/
-- 
2.43.0


From 5a6089e0205ba2edc52575712b9eb40b4c6a10f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:59 +0000
Subject: [PATCH 55/55] fix: a message of a renewed IMAP folder that is not
 copied is reported

---
 imapinterface.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/imapinterface.c b/imapinterface.c
index d717ad6..58954e0 100644
--- a/imapinterface.c
+++ b/imapinterface.c
@@ -348,6 +348,7 @@ const char *actual_uidvalidity;
 		(strlen(actual_uidvalidity) != uidvalidity_len) ||
 		(0 != memcmp(uidvalidity, actual_uidvalidity, uidvalidity_len))
 	) {
+		fprintf(stderr, "IMAP message \"%s\" cannot be copied because UIDVALIDITY changed\n", pseudopath);
 		return;
 	}
 
-- 
2.43.0

