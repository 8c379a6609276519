"""Which harnesses decide which property, with bounds and stubs (see DESIGN.md)."""
PROPS = {}


def prop(pid, *jobs):
    PROPS[pid] = {"jobs": list(jobs), "level": "model_checking"}


def J(name, harness, link=(), **kw):
    d = {"name": name, "harness": harness, "link": list(link)}
    d.update(kw)
    if set(d["link"]) & {"mbox.c", "dates.c", "nvp.c", "rfc822.c", "fromcheck.c", "datescan.c", "nvpscan.c"}:
        d["gen"] = True
    return d


T = ["tok.c", "reader.c", "hash.c"]
prop("P01",
     J("seq", "posting.c", T, covers=["all distinct", "all same"], bounds="any 3 non-decreasing message numbers below 0x3f000000"),
     J("grow", "posting.c", T, defs=["GROW=24"], covers=["longest list", "one long step at the end"], bounds="lists of up to 37 numbers: 0-24 one-byte, 0-3 two-byte, 0-9 four-byte steps, then one arbitrary number"),
     J("copy", "posting.c", T, defs=["COPY=2"], covers=["appended after loading"], bounds="1-2 stored numbers, loaded from a file image, then 0-2 more"),
     J("seq4", "posting.c", T, bounds="any 4 non-decreasing message numbers below 0x3f000000", defs=["K=4"], tier="thorough", covers=["all distinct"]),
     )
prop("P02",
     J("table", "toktab.c", ["tok.c", "reader.c"], bounds="up to 4 insertions of words of one arbitrary byte, any message numbers, any of 3 hash values per word (first slots, shared, last slots), a table that starts at 4 slots", stubs="the hash function: an arbitrary function of the text", defs=["K=4"], covers=["one word", "all words distinct"]),
     J("table2", "toktab.c", ["tok.c", "reader.c"], bounds="as table, 3 insertions, the table of message ids with its two lists", stubs="as table", defs=["K=3", "TWO"], covers=["one word", "all words distinct"]),
     J("tablelen2", "toktab.c", ["tok.c", "reader.c"], bounds="as table, 3 insertions of words of two arbitrary bytes", stubs="as table", defs=["K=3", "LEN=2"], covers=["one word", "all words distinct"]),
     J("tablelong", "toktab.c", ["tok.c", "reader.c"], bounds="as table, 2 insertions of words of 2 to 4096 bytes (ten lengths), the first and the last byte arbitrary", stubs="as table", defs=["K=2", "LEN=2", "PREMAX=9"], covers=["one word", "all words distinct"]),
     )
MN = ["match", "no match"]
prop("P03",
     J("glob", "glob.c", ["glob.c"], covers=MN, bounds="all patterns of up to 3 bytes without [ and all names of up to 3 bytes"),
     J("class", "glob.c", ["glob.c"], defs=["CLASS", "NP=3"], covers=MN, bounds="one character class of 1-3 members from ] - a c e [ * ^ and two bytes above 127, closed or not, alone, before * or after ?; names of up to 2 bytes"),
     J("array", "glob.c", ["glob.c"], defs=["ARRAY"], covers=MN, bounds="2 patterns of up to 2 bytes or 3 of up to 1,  without [ and backslash; names of up to 2 bytes"),
     J("len31", "glob.c", ["glob.c"], defs=["LONGP=30"], covers=MN, bounds="30 and 31 elements, names one shorter, equal or one longer"),
     J("len40", "glob.c", ["glob.c"], defs=["LONGP=40"], covers=[], bounds="40 and 41 elements (known finding: patterns of more than 31 elements)"),
     J("class4", "glob.c", ["glob.c"], defs=["CLASS", "NP=4"], tier="thorough", covers=MN, bounds="as class, 1-4 members"),
     J("glob4", "glob.c", ["glob.c"], defs=["NP=4", "NS=4"], tier="thorough", covers=MN, bounds="as glob, patterns and names of up to 4 bytes"),
     )
SR = dict(link=["search.c", "reader.c"], pre=["FILES", "STDOUT"])
prop("P04",
     J("bytes", "subst.c", bounds="texts and words of up to 2 arbitrary bytes, 0 and 1 errors", stubs="the index, in memory", defs=["EMIN=0", "EMAX=1", "NP=2", "NT=2"], covers=["match", "no match"], **SR),
     J("sub0", "subst.c", bounds="texts of up to 4, words of up to 5 letters, no error (an alphabet of 8)", stubs="as bytes", defs=["EMIN=0", "EMAX=0", "NP=4", "NT=5", "ALPHA=8"], covers=["match", "no match"], **SR),
     J("sub1", "subst.c", bounds="texts of up to 3, words of up to 4 letters, 1 error (an alphabet of 7)", stubs="as bytes", defs=["EMIN=1", "EMAX=1", "NP=3", "NT=4", "ALPHA=7"], covers=["match", "no match"], **SR),
     J("sub2", "subst.c", bounds="texts and words of up to 4 letters, 2 errors (an alphabet of 8)", stubs="as bytes", defs=["EMIN=2", "EMAX=2", "NP=4", "NT=4", "ALPHA=8"], covers=["match", "no match"], **SR),
     J("sub3", "subst.c", bounds="texts of up to 5, words of up to 3 letters, 3 errors (an alphabet of 8)", stubs="as bytes", defs=["EMIN=3", "EMAX=3", "NP=5", "NT=3", "ALPHA=8"], covers=["match", "no match"], **SR),
     J("sub4", "subst.c", bounds="texts of up to 5, words of up to 3 letters, 4 errors (an alphabet of 8)", stubs="as bytes", defs=["EMIN=4", "EMAX=4", "NP=5", "NT=3", "ALPHA=8"], covers=["match", "no match"], **SR),
     J("long", "subst.c", bounds="texts of 29-31 and words of 29-30 letters with the first 28 the same, 0-4 errors (an alphabet of 5)", stubs="as bytes", defs=["EMIN=0", "EMAX=4", "PRE=28", "NP=3", "NT=2", "ALPHA=5"], covers=["match", "no match"], **SR),
     J("path", "subst.c", bounds="paths of files, mailboxes and messages on a server: texts of up to 3, paths of up to 3 letters, 0-4 errors (an alphabet of 6)", stubs="as bytes", defs=["PATHKEY", "EMIN=0", "EMAX=4", "NP=3", "NT=3", "ALPHA=6"], covers=["match", "no match"], **dict(SR, link=SR["link"] + ["mbox.c", "dirscan.c"])),
     J("anch", "subst.c", bounds="texts of up to 3, words of up to 4 letters, anchored at the start, no error", stubs="as bytes", defs=["ANCHOR", "EMIN=0", "EMAX=0", "NP=3", "NT=4", "ALPHA=7"], covers=["match", "no match"], **SR),
     J("anch1", "subst.c", bounds="texts and words of up to 4 letters, anchored, 1-4 errors: two outer bounds only", stubs="as bytes", defs=["ANCHOR", "EMIN=1", "EMAX=4", "NP=4", "NT=4", "ALPHA=8"], covers=["match", "no match"], **SR),
     )
prop("P05",
     J("bool", "query.c", bounds="one argument of up to 6 characters from two words, ~ , and /, and none or one of 1; two messages, any lists", stubs="the index, in memory", defs=["BOOL", "LEN=6", "ARG2=1"], covers=["match", "no match", "two arguments"], **SR),
     J("bool2", "query.c", bounds="one argument of up to 4 characters and none or one of up to 4", stubs="as bool", defs=["BOOL", "LEN=4", "ARG2=4"], covers=["match", "no match", "two arguments"], **SR),
     J("keys", "query.c", bounds="0-2 key letters of b s t c f r a n p, a word in either case, whole or part of a word; two messages, any lists, the word in a path or not", stubs="as bool", defs=["KEYS"], covers=["no key", "two keys", "address key"], **SR),
     J("threads", "query.c", bounds="4 messages, each found or not, gone or not, in any of 5 threads, with and without -t, dated order or not", stubs="as bool", defs=["THREADS"], covers=["thread expanded"], **SR),
     J("sort", "query.c", bounds="3 messages with any dates", stubs="as bool", defs=["SORT"], covers=["three sorted"], **SR),
     J("flags", "query.c", bounds="F: with any of the letters s r f and -, two messages with any flags", stubs="as bool", defs=["FLAGS"], covers=["mixed flags"], **SR),
     J("size", "query.c", bounds="z: in its four forms, numbers of up to 4 digits with and without k and m, any size; sizes equal to a bound left open", stubs="as bool", defs=["SIZE", "ND=4"], covers=["in range", "outside"], **SR),
     J("msgid", "query.c", bounds="m: with any 1-3 bytes against an id of 1-3 bytes", stubs="as bool", defs=["MSGID"], covers=["found"], **SR),
     J("paths", "query.c", bounds="p: over messages of all kinds in files, mailboxes and on a server, dead ones, any case", stubs="as bool", defs=["PATHS"], covers=["found"], **dict(SR, link=SR["link"] + ["mbox.c", "dirscan.c"])),
     )
DB = ["db.c", "writer.c", "reader.c", "tok.c", "mbox.c", "hash.c"]
prop("P06",
     J("msgs", "roundtrip.c", DB, bounds="up to 3 messages of 4 kinds and 2 mailboxes; all times, sizes, dates, thread numbers, checksums and flags; paths of any bytes; the index file absent, shorter or longer before", stubs="the index file, in memory; hash by length", pre=["FILES"], covers=["file existed", "mbox message", "imap message", "dead message"]),
     J("toks", "roundtrip.c", DB, bounds="one of the 7 word tables with any way in which 3 words occur in 3 messages; one word added after loading", stubs="as msgs", defs=["TOKS", "NM=3"], pre=["FILES"], covers=["message ids", "word added"]),
     )
DBP = ["db.c", "reader.c", "tok.c", "mbox.c"]
prop("P07",
     J("words", "purge.c", DBP, bounds="4 messages, any of them gone, 1-3 words with lists of 1-2 messages, hash values in 3 slots at the start and end of a table of 8", stubs="the hash function", defs=["WORDS", "NM=4", "NW=3"], covers=["all gone", "one gone"]),
     J("msgs", "purge.c", DBP, bounds="3 messages of 4 kinds, two mailboxes gone or not, all times, sizes, dates and threads, one of 7 tables", stubs="the hash function", covers=["all gone", "first gone"]),
     )
UPD = ["db.c", "reader.c", "tok.c"]
prop("P08",
     J("thr", "update.c", UPD, bounds="3 messages, each with an id and one reference which may or may not be its own, sent in three places (References, In-Reply-To, both), any of two hash orders, indexed in one or two runs, one removed in between or not", stubs="the message parser; files in memory; the hash function", defs=["THREADS", "K=3", "R=1"], pre=["NAMES"], covers=["one thread", "two threads", "linked through a removed message"]),
     J("sets", "update.c", UPD, defs=["SETS", "K=5", "NI=3"], pre=["NAMES"], covers=["one thread", "two threads"], bounds="all ways in which 5 messages can carry 3 ids, indexed in one or two runs"),
     J("sets6", "update.c", UPD, defs=["SETS", "K=6", "NI=3"], pre=["NAMES"], tier="thorough", covers=["one thread", "two threads"], bounds="6 messages, 3 ids"),
     J("thr4", "update.c", UPD, defs=["THREADS", "K=4", "R=1", "FIXORDER=0"], pre=["NAMES"], tier="thorough", covers=["one thread", "two threads"], bounds="4 messages, each with its own id and one reference, all arbitrary"),
     J("thr4r", "update.c", UPD, bounds="as thr4, the other hash order", stubs="as thr", defs=["THREADS", "K=4", "R=1", "FIXORDER=1"], pre=["NAMES"], tier="thorough", covers=["one thread", "two threads"]),
     )
prop("P20",
     J("files", "update.c", UPD, bounds="0-3 files, each in the index or not, listed or not, there, gone or a directory, readable as a message or not; any old and new times and sizes; fast or not; one on a server", stubs="the message parser; files in memory", pre=["NAMES"], defs=["K=3"], covers=["kept", "changed", "new"]),
     J("names", "update.c", UPD, bounds="as files, 2 files with any names of one byte", stubs="as files", pre=["NAMES"], defs=["K=2", "SYMNAMES"], covers=["kept", "changed", "new"]),
     )
MB = ["mbox.c", "fromcheck.c", "glob.c", "dirscan.c", "db.c", "reader.c", "tok.c"]
prop("P09",
     J("split", "mboxh.c", MB, bounds="a mailbox of up to 1 byte, a separator, up to 4 bytes, a separator, 1-2 bytes; all bytes arbitrary", stubs="the file is in memory; the message parser records what it is given; MD5", defs=["SPLIT"], pre=["NAMES"], covers=["two messages", "no message", "separator text inside a line"]),
     J("mmdf", "mboxh.c", MB, bounds="MMDF mailboxes of 6-8 bytes from ^A, newline and a letter after the first separator", stubs="as split", defs=["MMDF", "L1=8"], pre=["NAMES"], covers=["terminated", "unterminated"]),
     J("mmdf2", "mboxh.c", MB, bounds="as mmdf, two messages", stubs="as split", defs=["MMDF", "L1=6", "TWO"], pre=["NAMES"], covers=["terminated"]),
     J("coal", "mboxh.c", MB, bounds="1-4 pieces between separators, each needing 0-3 more to be complete", stubs="as split; the parser asks for more as chosen", defs=["COAL"], pre=["NAMES"], covers=["joined"]),
     J("fromline", "mboxh.c", MB, bounds="9 forms of separator lines; in each, one byte of 7 kinds arbitrary", stubs="as split", defs=["FROMLINE"], pre=["NAMES"], covers=["separator", "rejected", "another form"]),
     )
prop("P10",
     J("incr", "mboxh.c", MB, defs=["INCR", "NO=5"], pre=["NAMES"], covers=["deleted and appended", "only deleted"],
       bounds="0-5 distinct messages of two lengths, any subset deleted, 0-2 appended; one arbitrary byte in each; any modification times such that a change shows in time or size",
       stubs="the file is a memory image; the message parser and MD5 are stand-ins (an ideal checksum)"),
     J("boxes", "mbox2.c", MB, defs=["RUNS=3", "OPS=3"], pre=["NAMES"], covers=["purged", "came back"],
       bounds="two mailboxes over three runs, with 0-2 messages at first, each later gone, unchanged, its first message deleted or one appended; purged or not after each run; one arbitrary byte in each message; any times",
       stubs="as incr"),
     J("unreadable", "mbox2.c", MB, defs=["RUNS=3", "OPS=5", "ONE"], pre=["NAMES"], covers=["purged", "came back", "could not be read"], bounds="one mailbox over three runs, also deleted and appended at once, and appended to but not readable for one run", stubs="as incr"),
     J("boxes4", "mbox2.c", MB, defs=["RUNS=3", "OPS=5"], pre=["NAMES"], tier="thorough", covers=["purged", "came back", "could not be read"], bounds="as boxes, also deleted and appended at once, and appended to but not readable for one run", stubs="as incr"),
     )

RF = ["rfc822.c", "nvp.c", "nvpscan.c", "tok.c"]
prop("P11",
     J("b64", "body.c", RF, bounds="base64 of up to 7 arbitrary bytes with line breaks at 5 places, LF or CRLF, and junk or not", stubs="files in memory", defs=["B64", "N=7"], covers=["two padding characters", "one padding character"]),
     J("qp", "body.c", RF, bounds="quoted-printable of up to 2 arbitrary bytes, each written in 4 ways, soft line breaks", stubs="as b64", defs=["QP", "N=2"], covers=["soft line break"]),
     J("uu", "body.c", RF, bounds="uuencode of up to 7 arbitrary bytes, zero as space or backquote, one or two lines", stubs="as b64", defs=["UU", "N=7"], covers=["two lines", "empty file"]),
     J("raw", "body.c", RF, bounds="7bit, 8bit, binary, none or unknown: up to 4 arbitrary bytes", stubs="as b64", defs=["RAW", "N=4"], covers=["longest"]),
     J("anyqp", "body.c", RF, bounds="any text of up to 3 characters of 10 as quoted-printable: memory safety", stubs="as b64", defs=["ANY", "N=3", "LO=0", "HI=0"], covers=["body decoded"]),
     J("anyb64", "body.c", RF, bounds="any text of up to 4 characters of 10 as base64: memory safety", stubs="as b64", defs=["ANY", "N=4", "LO=1", "HI=1"], covers=["body decoded"]),
     J("anyuu", "body.c", RF, bounds="any text of up to 4 characters of 10 as uuencode: memory safety", stubs="as b64", defs=["ANY", "N=4", "LO=2", "HI=3"], covers=["body decoded"]),
     )
prop("P12",
     J("words", "enchdr.c", RF, defs=["NW=2", "N=1", "NT=1", "NF=0"], covers=["all words", "no word"], bounds="0-2 encoded words of 0-1 arbitrary bytes, 0-1 arbitrary bytes before, between and after"),
     J("long", "enchdr.c", RF, defs=["NW=1", "N=3", "NT=1", "NF=0"], covers=["all words", "no word"], bounds="one encoded word of 0-3 arbitrary bytes, 0-1 arbitrary bytes on either side"),
     J("fields", "enchdr.c", RF, defs=["N=1", "NT=0", "NF=6"], covers=["all words", "no word"], bounds="every header that is kept; 0-2 encoded words of 0-1 arbitrary bytes"),
     J("any", "enchdr.c", RF, defs=["ANY", "N=3"], covers=["closed word", "open word"], bounds="encoded words of up to 3 bytes from = ? _ a Q +, closed or not, then up to 3 from = ? B b: memory safety"),
     J("words2", "enchdr.c", RF, defs=["NW=2", "N=2", "NT=1", "NF=0"], tier="thorough", covers=["all words", "no word"], bounds="0-2 encoded words of 0-2 arbitrary bytes"),
     )
prop("P13",
     J("hdrs", "mime.c", RF, defs=["HDRS", "K=3", "LOK=0", "HIK=12"], covers=["understood", "refused"], bounds="1-3 header lines of 13 kinds (every header that is kept, others, folded lines, lines that are no header, mailbox separators), each value 0-1 arbitrary bytes, five ways of ending"),
     J("hdrs2", "mime.c", RF, defs=["HDRS", "K=2", "V=2", "LOK=0", "HIK=12"], covers=["understood", "refused"], bounds="1-2 header lines, values of up to 2 arbitrary bytes"),
     J("split", "mime.c", RF, defs=["SPLIT", "S=2"], covers=["two parts", "one part"], bounds="three boundary strings; up to 2 arbitrary bytes before the first boundary, in the part, and after a boundary string"),
     J("parts", "mime.c", RF, defs=["K=2"], covers=["all parts", "no final boundary"], bounds="0-2 parts of 11 kinds with 4 dispositions, one level of nesting with 1-2 parts; arbitrary content bytes"),
     J("split3", "mime.c", RF, defs=["SPLIT", "S=4"], tier="thorough", covers=["two parts", "one part"], bounds="up to 4 arbitrary bytes"),
     )
prop("P15",
     J("text", "tokens.c", UPD, defs=["L=4", "FLO=3", "FHI=4"], pre=["NAMES"], covers=[], bounds="subject and plain text of up to 4 arbitrary bytes, all other fields absent or filled in"),
     J("addr", "tokens.c", UPD, defs=["L=3", "FLO=0", "FHI=2"], pre=["NAMES"], covers=["several words"], bounds="To, Cc and From of up to 3 arbitrary bytes, all other fields absent or filled in"),
     J("html", "tokens.c", UPD, defs=["L=5", "FLO=5", "FHI=5"], pre=["NAMES"], covers=[], bounds="HTML of up to 5 arbitrary bytes"),
     J("parts", "tokens.c", UPD, defs=["L=3", "FLO=6", "FHI=7"], pre=["NAMES"], covers=["message inside"], bounds="file names of parts, text of an enclosed message: up to 3 arbitrary bytes"),
     J("ids", "tokens.c", UPD, defs=["L=5", "FLO=8", "FHI=10"], pre=["NAMES"], covers=[], bounds="Message-Id, In-Reply-To, References of up to 5 arbitrary bytes"),
     )
prop("P16",
     J("params", "params.c", RF, defs=["K=1", "V=2"], covers=["named", "unnamed"], bounds="one parameter in any of the five forms, its value (or one of its 2-3 pieces) of 1-2 arbitrary characters, with or without white space, 4 content types"),
     J("params2", "params.c", RF, defs=["K=2", "V=1"], covers=["named", "unnamed"], bounds="0-2 parameters, 5 names, 5 forms; value of 1 arbitrary character"),
     J("ctname", "params.c", RF, defs=["K=1", "V=1", "CTNAME"], covers=["named", "unnamed"], bounds="a file name in Content-Disposition or none, and one parameter of Content-Type in the five forms, 5 names"),
     J("both", "params.c", RF, defs=["K=0", "V=2", "SAMENAME"], covers=["named"], bounds="a plain and an encoded parameter of the same name"),
     J("any", "params.c", RF, defs=["ANYTEXT=3"], covers=["named", "unnamed"], bounds="any 0-3 bytes after six beginnings: memory safety"),
     J("any4", "params.c", RF, defs=["ANYTEXT=4"], tier="thorough", covers=["named", "unnamed"], bounds="any 0-4 bytes"),
     )
prop("P24",
     J("dates", "datehdr.c", RF, pre=["TIME"], covers=["good", "bad", "two digit year"], bounds="days of 1-2 digits, months in 4 spellings, all 2 digit and all 4 digit years from 1900, 3 week day and 3 time forms, a second Date header or none", stubs="mktime records what it is given"),
     J("any", "datehdr.c", RF, defs=["ANY=3"], pre=["TIME"], covers=["good", "bad"], bounds="any 0-3 bytes after six beginnings", stubs="mktime records what it is given"),
     )
DX = dict(link=["search.c", "reader.c", "dates.c", "datescan.c"], pre=["FILES", "STDOUT", "TIME"])
prop("P14",
     J("period", "datex.c", bounds="d: with one period, as an end, as a start: 10 forms of dates, 3 of today's dates, all days 1970-2104", stubs="the calendar: a model with months of 32 days for absolute dates", defs=["FLO=0", "FHI=2"], covers=["found", "not found"], **DX),
     J("rel", "datex.c", bounds="periods of days, weeks, months, years back: 1-2 terms, 9 numbers, 3 of today's dates", stubs="the calendar: a model with months of 31 days", defs=["REL"], covers=["found", "not found"], **DX),
     J("any", "datex.c", bounds="any 1-2 bytes after five beginnings", stubs="as rel", defs=["ANY=2"], covers=["found", "not found"], **DX),
     J("range", "datex.c", bounds="ranges of 5 forms of dates each, in either order", stubs="as period", defs=["FLO=3", "FHI=3"], covers=["found", "not found", "backwards"], **DX),
     )

FO = dict(link=["mbox.c", "fromcheck.c", "glob.c", "dirscan.c", "db.c", "reader.c", "tok.c"], pre=["NAMES"])
prop("P25",
     J("maildir", "folders.c", bounds="a tree of two levels of 6 kinds of entries, Maildir with cur, new or neither, single, absolute, ... and wildcard lists, omission of 5 kinds", stubs="the directory tree, in memory", defs=["MAILDIR"], covers=["found", "found below"], **FO),
     J("mh", "folders.c", bounds="as maildir, for MH folders: marks, sub-folders, message names", stubs="as maildir", defs=["MH"], covers=["found", "found below"], **FO),
     J("mhkinds", "folders.c", bounds="folders marked by each of 11 files", stubs="as maildir", defs=["MH", "MARKS=11", "NF=2", "DEEP=1", "PK=3", "OKN=0"], covers=["found", "found below"], **FO),
     J("mhnames", "folders.c", bounds="message names of up to 3 arbitrary bytes", stubs="as maildir", defs=["MH", "MARKS=0", "NF=3", "DEEP=1", "PK=3", "OKN=0"], covers=["found"], **FO),
     J("mhnames4", "folders.c", bounds="message names of up to 4 arbitrary bytes", stubs="as maildir", defs=["MH", "MARKS=0", "NF=4", "DEEP=1", "PK=3", "OKN=0"], covers=["found"], tier="thorough", **FO),
     J("mbox", "folders.c", bounds="as maildir, for mailboxes: files, directories, other kinds, links followed or not", stubs="as maildir", defs=["MBOX"], covers=["found", "found below"], **FO),
     J("flags", "folders.c", bounds="Maildir names with up to 5 arbitrary bytes", stubs="the message parser; files in memory", defs=["FLAGS", "L=5"], covers=["flags"], **FO),
     J("lists", "folders.c", bounds="lists of up to 4 arbitrary bytes", stubs="as maildir", defs=["LISTS", "L=4"], covers=["several folders"], **FO),
     )

prop("P21",
     J("magic", "badidx.c", ["reader.c"], defs=["MAGIC"], pre=["FILES"], covers=["accepted"], bounds="files of 0, 1, 159, 160, 200 and 1000 bytes with any first 8 bytes"),
     J("header", "badidx.c", ["reader.c"], defs=["LO=2", "HI=39"], pre=["FILES"], covers=["accepted"], bounds="files of 160, 200 and 1000 bytes; all values of the 38 header words"),
     J("list", "badidx.c", ["reader.c"], defs=["LIST=5"], pre=["FILES"], covers=["accepted"], bounds="a file ending in any 1-5 bytes, read as a list of messages from any offset"),
     J("words", "badidx.c", defs=["WORDS"], covers=["near the end", "beyond the end", "found"], bounds="a search by each key, exact and by part of a word, in an index whose one word and its list of messages lie anywhere from 5 bytes before the end of the file to 4 GB; the last 4 bytes are anything", **SR),
     )

MH_ = dict(link=["mairix.c", "dotlock.c", "expandstr.c", "glob.c"], pre=["NAMES", "STDIO", "STDOUT", "PROC", "MAIN"])
prop("P17",
     J("lock", "mainh.c", bounds="six modes of use with and without --unlock; another run takes or releases the lock up to 5 times, at any system call; lock file contents up to 3 bytes or unreadable; failing open and link", stubs="indexing, searching and dumping (recorded); file calls on the lock (modelled)", defs=["LOCK", "STEPS=5"], covers=["finished under the lock", "kept out", "link made but reported as failed"], **MH_),
     J("signal", "mainh.c", bounds="as lock, with up to 3 steps of the other run and one signal at any system call after the handlers are set; a signal between the link taking effect and its being recorded is not covered", stubs="as lock", defs=["LOCK", "STEPS=3", "SIGNALS"], covers=["finished under the lock", "kept out", "interrupted"], **MH_),
     )

WH_ = dict(link=["mairix.c", "dotlock.c", "expandstr.c", "glob.c", "mbox.c", "dirscan.c", "fromcheck.c", "db.c", "tok.c", "hash.c", "reader.c", "writer.c", "search.c", "dumper.c", "rfc822.c", "nvp.c", "nvpscan.c", "dates.c", "datescan.c", "md5.c"], pre=["NAMES", "STDIO", "STDOUT", "PROC", "MAIN", "FILES", "TIME"])
PROPS["P17"]["jobs"].append(
     J("failures", "whole.c", bounds="after one run over a Maildir file and a mailbox message: a search (13 expressions), an indexing run or a dump, five result formats, result folder absent, a file, a Maildir or an MH folder, six kinds of damaged index; no or one failing system call, any of the first 400", stubs="file system, environment and calendar in memory; no IMAP", defs=["FAIL=400"], covers=["gave up", "gave up after a failing call", "went on after a failing call", "search ended", "indexing ended", "dump ended"], **WH_))

WN_ = dict(WH_, link=[x for x in WH_["link"] if x not in ("hash.c", "md5.c")])
prop("P28",
     J("history", "whole.c", bounds="with and without -v: up to 3 files (Maildir cur and new, MH) and 2 mailbox messages, one run, one change of 9 kinds, a run and a search; words of 2 values each, times of 4 values", stubs="file system, environment and calendar in memory; ideal checksum, hash by length; no IMAP", defs=["FIND", "RUNS=1", "OPS=9", "LETTERS=3"], covers=["found"], **WN_),
     J("history2", "whole.c", bounds="with and without -v: none or 3 files and up to 1 mailbox message, a run, a change, a run, a change of 8 kinds, a run and a search", stubs="file system, environment and calendar in memory; ideal checksum, hash by length; no IMAP", defs=["FIND", "RUNS=2", "OPS=8", "FEW", "LETTERS=2"], covers=["found"], **WN_),
     J("imap", "whole.c", bounds="with and without -v: up to 2 files, a mailbox message and up to 3 messages on a server, which can be reached or not; a run, a change of 8 kinds, one or two runs with or without -p, any message unreadable for a while, and a search; words of 2 values each", stubs="file system, environment, calendar and IMAP server (what it lists and delivers) in memory; ideal checksum, hash by length", defs=["IMAPMIX", "OUTMAX=600"], covers=["found", "server down"], **WN_),
     J("keys", "whole.c", bounds="with and without -v: 3 messages (Maildir, mailbox, MH), a word of 2 values in any of 8 places of each, 19 forms of expressions over all keys", stubs="file system, environment and calendar in memory; ideal checksum, hash by length; no IMAP", defs=["KEYS"], covers=["found", "nothing found"], **WN_),
     J("odd", "whole.c", bounds="with and without -v: 33 kinds of malformed messages with two arbitrary bytes in critical places, in each kind of folder, next to two proper ones", stubs="file system, environment and calendar in memory; ideal checksum, hash by length; no IMAP", defs=["ODD=2"], covers=["found"], **WN_),
     J("many", "whole.c", bounds="with and without -v: a mailbox of 300 messages, one of which has the word (four places), and one of which is removed before a second run, which purges or not", stubs="as history", max_steps=60000000, defs=["MANY", "NB=300", "NH=0", "WHERE=0,255,256,299"], covers=["found"], **WN_),
     J("manyfiles", "whole.c", bounds="with and without -v: as many, an MH folder of 1030 messages and three places", stubs="as history", max_steps=60000000, defs=["MANY", "NB=0", "NH=1030", "MAXN=1100", "WHERE=0,1024,1029"], covers=["found"], **WN_),
     )
PROPS["P25"]["jobs"].append(
     J("twice", "whole.c", bounds="16 sets of lists, half of which reach a message or a mailbox twice, with and without an index of an earlier run and messages there", stubs="file system, environment and calendar in memory; no IMAP", defs=["TWICE"], covers=["refused", "found"], **WN_))
prop("P30",
     J("failing", "whole.c", bounds="none or 3 files and up to 1 mailbox message, a run, a change of 8 kinds, a run in which any one of the first 400 system calls fails, a run and a search", stubs="file system, environment and calendar in memory; ideal checksum, hash by length; no IMAP", defs=["FIND", "RECOVER", "BOTH", "OPS=8", "FEW", "LETTERS=2"], covers=["found", "gave up", "index found damaged", "went on after a failing call"], **WN_),
     J("killed", "whole.c", bounds="none or 3 files and up to 1 mailbox message, a run, a change of 5 kinds, a run killed at any basic block of writer.c, a run with --unlock and a search", stubs="file system, environment and calendar in memory; ideal checksum, hash by length; no IMAP", defs=["FIND", "KILLED=65535", "BOTH", "OPS=5", "FEW", "LETTERS=1"], covers=["found", "killed", "index found damaged", "not killed"], blocks=["writer.c"], **WN_),
     )
prop("P29",
     J("all", "whole.c", bounds="after one run over a Maildir file and a mailbox message: a search (13 expressions), an indexing run or a dump, five result formats, result folder absent, a file, a Maildir or an MH folder, six kinds of damaged index; no or one failing system call, any of the first 400", stubs="file system, environment and calendar in memory; no IMAP", defs=["FAIL=400", "UNTOUCHED"], covers=["gave up", "gave up after a failing call", "went on after a failing call", "search ended", "indexing ended", "dump ended"], **WH_),
     J("aliased", "whole.c", bounds="after one run over a Maildir, an MH folder and a mailbox, this by its name or a link: a search with or without -a, five result formats, the result folder a link to one of 7 places, five of them mail or links to it", stubs="as all", defs=["FAIL=0", "UNTOUCHED", "ALIASED"], covers=["gave up", "results delivered"], **WH_),
     J("aliasedfail", "whole.c", bounds="as aliased, the result folder one that is mail, and any one of the first 60 system calls failing (known finding)", stubs="as all", defs=["FAIL=60", "UNTOUCHED", "ALIASED"], covers=[], **WH_),
     )

prop("P19",
     J("lists", "mainh.c", bounds="folder list settings: one or two lines, a value of an optional expansion followed by up to 3 arbitrary bytes (except # ! ; % which start a comment), a comment of each of the four kinds behind it, with and without the environment variable", stubs="indexing and searching (recorded), environment of fixed variables", defs=["RC", "KLO=0", "KHI=4", "N=3"], covers=["expanded", "two lines"], **MH_),
     J("values", "mainh.c", bounds="the other settings, as lists", stubs="as lists", defs=["RC", "KLO=5", "KHI=13", "N=3"], covers=["expanded", "two lines"], **MH_),
     J("options", "mainh.c", bounds="up to 2 options of 15 in either spelling, with or without --, up to 2 arguments, settings and environment with or without a result folder, all results of the parts", stubs="as lists", defs=["OPTS=2"], covers=["refused", "help", "dump", "nowhere", "search", "indexed"], **MH_),
     J("setup", "mainh.c", bounds="settings from a file given, HOME or the password file, there or not; base, database, folder lists, server, result folder and format set or not; index there, missing or a directory; options without their argument; a hash key of up to 2 digits", stubs="as lists", defs=["SETUP"], covers=["refused", "search", "indexed"], **MH_),
     J("any", "mainh.c", bounds="up to 4 arbitrary bytes after six beginnings of a settings file", stubs="as lists", defs=["ANYRC=4"], covers=["handled"], **MH_),
     )

RS_ = dict(link=["search.c", "reader.c", "mbox.c", "dirscan.c"], pre=["FILES", "STDOUT", "NAMES", "STDIO"])
prop("P18",
     J("maildir", "results.c", bounds="up to 3 messages found of 3 kinds, all flags on one of them, result folder absent, a file, or a Maildir with up to 1 earlier entry of 3 kinds and 7 names in cur, new or tmp; with and without -a and -H", stubs="files, directories and index in memory; IMAP server; MD5", defs=["RES=0", "OLD=1"], covers=["three results", "copied", "fetched", "hard link", "earlier results removed", "earlier results kept", "a file in the way"], **RS_),
     J("dirs", "results.c", bounds="one message file in a directory of any name of up to 4 bytes", stubs="files, directories and index in memory", defs=["RES=0", "OLD=0", "ANYDIR=4"], covers=["called new"], **RS_),
     J("mh", "results.c", bounds="as maildir, for an MH folder", stubs="as maildir", defs=["RES=1", "OLD=1"], covers=["three results", "earlier results removed", "earlier results kept", "a file in the way"], **RS_),
     J("refuse", "refuse.c", bounds="17 names for the result folder against 4 Maildir, 2 MH and 3 mailbox lists with and without omission, 3 formats; all device and inode numbers (8 bits each)", stubs="files in memory; searching (recorded)", covers=["refused", "accepted"], link=["mairix.c", "dotlock.c", "expandstr.c", "glob.c", "mbox.c", "dirscan.c"], pre=["NAMES", "STDIO", "STDOUT", "PROC", "MAIN"]),
     )

prop("P22",
     J("mbox", "results.c", bounds="three messages of which any are found; one of up to 3 arbitrary bytes; a mailbox changed in any byte or cut off at any length", stubs="as P18 maildir", defs=["DELIVER=0", "LEN=3"], covers=["several delivered", "changed since", "appended"], **RS_),
     J("imap", "results.c", bounds="as mbox, with all flags and up to 2 arbitrary bytes", stubs="as mbox", defs=["DELIVER=1", "LEN=2"], covers=["several delivered", "changed since"], **RS_),
     J("excerpt", "results.c", bounds="as imap", stubs="as mbox; message parsing recorded", defs=["DELIVER=2", "LEN=2"], covers=["several delivered", "changed since"], **RS_),
     J("raw", "results.c", bounds="as imap", stubs="as mbox", defs=["DELIVER=3", "LEN=2"], covers=["several delivered"], **RS_),
     J("shown", "whole.c", bounds="3 messages (Maildir, mailbox, MH) of any of two words and any of 9 days, one of 6 headers missing in one, three time zones, shown with -r or -x", stubs="file system, environment and calendar in memory; ideal checksum, hash by length; no IMAP", defs=["EXCERPT", "OUTMAX=1300"], covers=["shown", "east"], **WN_),
     )

RO_ = dict(link=["rfc822.c", "xzfile.c"], pre=["FILES", "NAMES", "STDIO"])
prop("P26",
     J("order", "romap.c", bounds="4 mappings of plain, gzip, bzip2 and xz files in any order, texts of 0-2 arbitrary bytes, damaged or not", stubs="files in memory; the three decompressors: any text, any way of failing", defs=["STEPS=4", "BIG=0"], covers=["decompressed", "decompressed before", "corrupt"], **RO_),
     J("large", "romap.c", bounds="2 mappings, texts larger than the first buffer", stubs="as order", defs=["STEPS=2", "BIG=1"], covers=["decompressed", "decompressed before", "corrupt"], **RO_),
     J("faults", "romap.c", bounds="3 mappings, any one of the first 40 system calls failing", stubs="as order", defs=["STEPS=3", "BIG=0", "FAULTS=1"], covers=["decompressed", "decompressed before"], **RO_),
     )

IMR_ = dict(link=["imap.c", "imapinterface.c"], pre=["FILES", "NET", "TIME", "STDIO"])
IM_ = dict(link=["imap.c", "imapinterface.c"], pre=["FILES", "NET", "TIME"])
prop("P23",
     J("listing", "imapx.c", defs=["MODE=0"], covers=["delivered", "gone"], bounds="two folders (four pairs of names, one beginning like the other), there or not, omitted or not, of up to 2 and 1 messages, each marked deleted or not; nine kinds of other replies in between; then two messages fetched in any order, with the folder renewed or the message gone", stubs="server: RFC 3501 model; poll, read, write, pipe, fork; split_on_colons, is_globber_array_match, data_to_rfc822", **IM_),
     J("bytes", "imapx.c", defs=["MODE=1", "LEN=3"], covers=["quoted", "a quote in it", "brackets and line ends", "a NUL byte"], bounds="a message of up to 3 arbitrary bytes, as literal or quoted string, replies cut at any place, short writes, retries", stubs="as listing", **IM_),
     J("sending", "imapx.c", defs=["MODE=2", "LEN=2"], covers=["a backslash", "not ASCII", "a quote"], bounds="user name and password, or folder name, of up to 2 arbitrary bytes each; a message of up to 3", stubs="as listing", **IM_),
     J("anything", "imapx.c", defs=["MODE=3", "LEN=2"], covers=["refused", "all went well", "nothing came"], bounds="14 beginnings followed by 2 arbitrary bytes, with or without line end, at 6 places of the conversation", stubs="as listing", **IM_),
     J("delivery", "imapx.c", defs=["MODE=4", "FAULTS=40"], covers=["no connection", "two added", "server gone", "added to a fresh folder"], bounds="result folder there or not, empty or not, emptied or not, two messages copied or added with any flags or indexed; the server goes away in 4 ways at any of the first 40 system calls", stubs="as listing", **IM_),
     J("refusals", "imapx.c", defs=["MODE=6"], covers=["refused", "logged in already", "let in", "a refusal"], bounds="seven greetings, five answers about capabilities, five to the login, with or without name and password; then two folders listed and a message fetched, copied, stored and removed, with any one of the first 13 commands refused by NO or BAD", stubs="as listing", **IMR_),
     )

prop("P27",
     J("tls", "imapx.c", defs=["MODE=5", "LEN=3"], covers=["refused", "accepted", "name", "wildcard"], bounds="all host names and certificate names (any bytes) of up to 3 and 4 bytes, verified or not, with or without certificate, handshake failing or not, replies sent ahead in the clear or not", stubs="server: RFC 3501 model; OpenSSL: recording stand-ins; sockets", **IM_),
     )
