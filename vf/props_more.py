NA.append(dict(property="N01", reason="MD5 over whole messages is a long loop of symbolic-by-symbolic arithmetic; collision freedom is a cryptographic assumption, not decidable by a solver. The checks use an ideal checksum instead."))
P_("N01", "Message checksums tell different messages apart",
   "Two different message texts in a mailbox never get the same checksum.", ["inputs"], "all pairs of message texts",
   "It is a statement about all pairs of texts.", ["md5.c", "mbox.c"], [("checksum", "md5.c; mbox.c: compute_checksum")], "")
P_("P11", "Message bodies are decoded to the text they encode",
   "The text indexed for a body is exactly the original text, whatever transfer encoding it was sent in: base64, quoted-printable (either hex case, soft line breaks), uuencode, or none, however the encoder broke the lines. A body that is cut off or malformed is never read beyond the message and never makes the decoded text longer than the encoded one.",
   ["inputs"], "all original texts within the length bound and all ways a standard encoder may write them; all malformed bodies within the bound",
   "The tests contain one short sample of base64 and quoted-printable and none of uuencode; truncated input never occurs in them.",
   ["rfc822.c"], [("transfer decoding", "rfc822.c: unencode_data, looking_at_ws_then_newline")],
   "round trip through a reference encoder, message in a block of its exact size")
P_("P12", "Encoded words in headers are replaced by the text they stand for",
   "In a header value every =?charset?Q?..?= or =?charset?B?..?= word is replaced by exactly the bytes it encodes, and everything around it is kept as it stands. Words in an unknown encoding and unfinished words are left untouched.",
   ["inputs"], "all encoded texts and all surrounding text within the bound, for every header that is indexed",
   "Decoding happens in place with several moving pointers; the tests have a few well formed samples.",
   ["rfc822.c"], [("RFC 2047 decoding", "rfc822.c: decode_header_value, copy_header_value")],
   "round trip through a reference encoder")
P_("P13", "Headers and MIME parts are split exactly where they are",
   "Each header counts with exactly the text it has, folded lines joined; To and Cc lines are collected, of other headers the first counts, and status letters set the flags. A multipart message yields exactly its parts in order, each with its own type, file name and text; only a whole boundary line separates parts, a missing final boundary is reported, and a text that does not begin with headers is refused.",
   ["inputs"], "all sequences of header lines of the kinds mentioned, all contents around boundary lines, nesting of multiparts",
   "The number of combinations of header kinds, folding, boundary look-alikes and nesting is far beyond any list of samples.",
   ["rfc822.c", "nvp.c"], [("header splitting", "rfc822.c: split_and_splice_header, audit_header, splice_header_lines"), ("parts", "rfc822.c: do_multipart, do_attachment, do_body"), ("extraction", "rfc822.c: data_to_rfc822")],
   "whole messages through the real parser")
P_("P14", "A date expression selects exactly the days it means",
   "A d: search reports the messages dated after the start day up to and including the end day of the range the expression means, and none before or after: absolute dates in every documented form, shorthand for the most recent such day, month or year before the end of the range (or before now), open ends, and relative dates counted back from now. Whether the start day itself counts is left open.",
   ["inputs", "environment"], "all forms of expressions, all digits, all present dates and all message dates within the bounds",
   "Meaning depends on the present date; the tests use only full dates.",
   ["dates.c", "datescan.nfa", "search.c"], [("expression scanner", "datescan.nfa, dates.c: discover_type, scan_date_expr"), ("range", "dates.c: scan_date_string; search.c: find_date_matches_in_table")],
   "the calendar is replaced by one with equal months")
P_("P16", "MIME parameters are read as written",
   "An attachment's content type and file name are those its headers give: values plain or quoted, in numbered pieces, percent-encoded with a character set, or both, with or without white space around, names compared without regard to case. A plain name next to an encoded one is not mixed up with it, and whatever else a header contains is never read beyond its end.",
   ["inputs"], "all values within the length bound in all the forms, up to two parameters; all header texts of a few bytes",
   "The tests have two kinds of attachment headers.",
   ["nvp.c", "nvp.nfa", "rfc822.c"], [("parameter scanner", "nvp.nfa, nvp.c: make_nvp, combine_namevalue"), ("use", "rfc822.c: do_body")],
   "the generated scanner is rebuilt from nvp.nfa on every run")
P_("P24", "A message is dated by its Date header",
   "The date recorded for a message is the start of the day its first Date header names, with or without week day, for all months in any case and for two and four digit years (00-69 meaning 20xx). A header that names no valid day gives no date, and no header text makes parsing fail.",
   ["inputs"], "all days, months and years and all spellings in the bound; all short texts",
   "The tests contain a handful of dates, all in one format.",
   ["rfc822.c"], [("date parser", "rfc822.c: parse_rfc822_date")],
   "mktime is a stand-in that records the broken-down date")
P_("P15", "A message is indexed under exactly the words it contains",
   "After indexing, a message is listed under every run of letters, digits and underscores in its subject and text, in lower case, and under no others: addresses also as a whole, HTML without its tags, enclosed messages like the enclosing one, other kinds of parts only by file name. Each header's words go to that header's table only, and the ids in angle brackets to the thread table, the message's own marked as such.",
   ["inputs"], "all texts within the length bound in each field, with the other fields present or absent",
   "Every byte value next to every other matters at word boundaries and around tags; tests have a few ordinary sentences.",
   ["db.c", "tok.c"], [("tokeniser", "db.c: tokenise_string, tokenise_html_string, char_valid_p"), ("fields", "db.c: tokenise_message, add_angled_terms")],
   "the parsed message is built by the harness")
P_("P25", "A folder list selects exactly the folders it describes",
   "The messages indexed are exactly those of the folders the maildir, mh and mbox lists name: entries split at colons not escaped by a backslash, relative to the base or absolute, wildcards in the last component, '...' reaching all folders below, minus those an omit pattern names; lists that reach a message twice are refused before the index is touched. Only real folders of the kind count; in an MH folder only numbered files are messages, a Maildir message's flags are the letters after ':2,' in its name, and a mailbox (linked ones included, if asked for) is read again exactly when its time or size has changed.",
   ["inputs", "environment"], "all names and all directory trees within the bound, all forms of list entries and omit patterns",
   "The tests have one fixed directory tree and no wildcards or omissions.",
   ["dirscan.c", "mbox.c", "glob.c", "db.c"], [("expansion", "mbox.c: glob_and_expand_paths, handle_one_path, handle_wild, append_deep"), ("folder contents", "dirscan.c: get_maildir_message_paths, get_mh_message_paths, valid_mh_filename_p, filter_is_mh"), ("flags", "db.c: scan_maildir_flags"), ("mailbox list", "mbox.c: build_mbox_lists")],
   "the file system is a small tree in memory")
P_("P21", "A file that is not a sound index is refused",
   "Opening an index either ends with an error message or yields tables that all lie within the file: a file that is no index, an index of another version or byte order, one that is cut off, and one whose header points beyond the end are refused. Reading a list of messages, and looking up words or message ids, never goes beyond the end of the file, whatever its bytes.",
   ["inputs"], "all header contents and several file sizes; all list contents within the bound",
   "Tests only ever open indexes the program has just written.",
   ["reader.c"], [("opening", "reader.c: open_db, read_toktable_db, read_toktable2_db"), ("lists", "reader.c: int_list_reader_read")],
   "strings inside the tables are covered for lookups of words and message ids only")
P_("P17", "Runs sharing an index keep out of each other's way",
   "A run reads, searches, dumps or writes the index only while it holds the lock beside it. While another run holds the lock, a run ends with an error and changes nothing, unless told to remove the lock; it never removes or overwrites a lock it does not hold. However a run ends - success, error exit, or an interrupting signal while it works - its own lock is gone afterwards, so the next run is not kept out.",
   ["interleavings", "faults"], "all moments at which another run takes or releases the lock, at which a signal arrives, all contents of the lock file, and failing system calls on it",
   "Tests run one process at a time and are never interrupted.",
   ["dotlock.c", "mairix.c"], [("lock", "dotlock.c: lock_database, unlock_database, unlock_and_exit"), ("use", "mairix.c: main, handlesig")],
   "another run is an environment step at every system call; the indexing and searching parts are stand-ins")
P_("P19", "Settings and options mean what the manual says",
   "Every setting takes effect with the value given: keywords in any case, leading white space and comment lines ignored, ~/ and $ references expanded, folder lists of several lines added up and the last of other lines counting, environment variables overriding the file and -o overriding both. Options count in any order and spelling: indexing happens exactly when there is no expression, purging only with -p, and the index is written exactly when something changed. Unknown options are refused; a run that lacks what it needs (settings, base, index, folders, a result folder, a server) says so, fails and touches no index; and no settings file makes the program crash.",
   ["inputs", "environment"], "all values of a few bytes after each form of expansion for every setting, combinations of options with each other and with settings; all short texts at critical places",
   "The tests use one settings file layout and a few option combinations.",
   ["mairix.c", "expandstr.c"], [("settings", "mairix.c: parse_rc_file, copy_value, add_folders"), ("expansion", "expandstr.c: expand_string"), ("options", "mairix.c: main")],
   "the indexing and searching parts are stand-ins that record what they are asked to do")
P_("P18", "A search changes nothing but its result folder",
   "A search never removes, creates or writes anything outside the result folder, not even through a link in it, and refuses to use a folder that is indexed, whatever route its name takes, while any other is accepted. Without -a the messages in the result folder are removed first, and only those; with -a they stay. Afterwards every message found is there once, as a symbolic link (hard link with -H) or a copy of its text, with its flags, an unread one in new, MH results numbered in order.",
   ["inputs", "environment"], "all combinations of kinds of messages found, flags, earlier contents of the result folder, ways to name the result folder, all device and inode numbers",
   "The tests search into fresh folders only and never with -a onto existing results.",
   ["search.c", "mairix.c", "dirscan.c"], [("clearing", "search.c: search_top, clear_maildir_subfolder, clear_mh_folder, directory_exists_remove_other"), ("results", "search.c: do_search, mk_maildir_path, mk_mh_path, create_symlink, try_copy_to_path"), ("refusal", "mairix.c: main, member_of")],
   "the file system is a small tree in memory; earlier results of another numbering under the same Maildir name are left open")
P_("P22", "Found messages are delivered whole, or not at all",
   "A message of a mailbox is delivered (to a mailbox, Maildir, MH or IMAP folder or as an excerpt) only if the text at its place still is what was indexed, and then byte by byte; one that has changed, moved or been cut off is left out, and the user is told. A result mailbox holds the messages found, each behind a separator line and ended by an empty line, after what was there with -a, and nothing else. Listings name each message's file or its place in the mailbox, and an excerpt shows the message's own headers and date.",
   ["inputs", "history"], "all texts within the bound, all changes of a byte and all truncations of the mailbox after indexing, all kinds of results",
   "The tests never change a mailbox between indexing and searching.",
   ["search.c", "mbox.c"], [("validation", "search.c: get_validated_mbox_msg; mbox.c: compute_checksum"), ("delivery", "search.c: append_file_to_mbox, append_mboxmsg_to_mbox, mbox_terminate, do_search")],
   "MD5 is a stand-in under which different short texts have different sums; separator lines within a message are not quoted (limit)")
P_("P26", "Mail files are read whole, compressed or not, in any order",
   "Reading a mail file yields exactly its bytes, and reading a gzip, bzip2 or xz mailbox (by the ending of its name) exactly the bytes it decompresses to, however long, in whatever order files are read and read again, one after the other or the same several times. A file that cannot be opened, mapped or decompressed is reported and skipped; no part of one file is ever taken for another, no memory released is used, and mail is only ever opened for reading.",
   ["history", "faults"], "all orders of reading up to four files of six kinds of names, all contents of up to two bytes at the file's ends, corrupt data at any place, a failing system call at any place",
   "The decompressed file is kept for the next read: which files were read before matters, and the tests read one compressed mailbox at a time.",
   ["rfc822.c", "xzfile.c"], [("mapping", "rfc822.c: create_ro_mapping, free_ro_mapping"), ("decompression", "rfc822.c: xx_zopen, xx_zread, xx_zclose; xzfile.c")],
   "zlib, bzip2, lzma and the file system are stand-ins; leaks on error paths are left open")
P_("P23", "Mail on an IMAP server is listed, read, copied and stored exactly",
   "The messages listed are those of the IMAP folders named and not omitted, except those marked deleted. Fetching one yields its bytes, read without marking it, and only from the folder and incarnation (UIDVALIDITY) it was listed in; copying and storing put it into the result folder with its flags, creating the folder if need be, and change nothing else on the server. This holds whatever bytes folder names, user names, passwords and messages contain, however replies are cut into pieces and whatever other replies come in between. Malformed or missing replies never crash the program; a message that was not received is left out, and what the server refuses (to let the user in, to open a folder, to copy or store a message) is said and affects nothing else.",
   ["inputs", "faults", "history"], "all contents, names and passwords of a few bytes, all ways replies can be cut, all short texts in the place of a reply, a server going away at any system call",
   "The tests have no IMAP server at all.",
   ["imap.c", "imapinterface.c"], [("protocol", "imap.c: imap_ll_waitline, format_cmd, imap_ll_command, imap_login, imap_select"), ("mail", "imapinterface.c: scan_folder, imap_fetch_message_raw, imap_copy_message, imap_append_new_message, imap_clear_folder")],
   "the server is a model of RFC 3501; what a garbage line does to the rest of the conversation is left open as long as nothing crashes")
P_("P27", "The IMAP password is only sent to the server it is for",
   "When the server offers TLS and starts it, logging in happens only over TLS, only after the handshake succeeded, the certificate was verified and, for a server given by name, its common name is that name or a leading-asterisk wildcard for it, whatever bytes it contains. Otherwise the connection is given up before the password is sent. Nothing the server sent in the clear counts afterwards.",
   ["inputs", "environment", "faults"], "all server names and certificate names of a few bytes, all outcomes of handshake and verification, replies sent ahead or not",
   "The tests have no IMAP server; an attacker chooses the certificate and the timing.",
   ["imap.c"], [("TLS", "imap.c: imap_ll_starttls, imap_login")],
   "OpenSSL is a stand-in; a server that does not offer or refuses STARTTLS is still logged in to in the clear, by design")
P_("P28", "A search finds exactly the messages now in the folders",
   "After indexing, with or without purging, a search finds every message now in the Maildir, MH and mailbox folders and the folders on an IMAP server that matches and no other, whatever was there and indexed before: files that came, went or were replaced, mailboxes that grew, shrank or changed, messages that could not be read for a while, read by one run or several. A server that cannot be reached is an error and leaves the index as it was. Each part of a message is found under its own key and under no other, from the bytes of the mail to the entries in the result folder, and the exit status says whether anything was found.",
   ["history", "inputs"], "all histories of changes, runs and unreachable servers within the bound, all words and places in the mail where they stand, all keys",
   "The tests index a fixed set of messages once; the guarantee is over every history of the folders and joins all parts of the program.",
   ["mairix.c", "db.c", "mbox.c", "dirscan.c", "rfc822.c", "tok.c", "writer.c", "reader.c", "search.c"], [("run", "mairix.c: main"), ("update", "db.c: update_database, cull_dead_messages; mbox.c: build_new_mbox_lists"), ("search", "search.c: search_top")],
   "the whole program over a file system and a server in memory; no index is written, and a search gives up, while nothing has ever been there to index")
P_("P29", "No run touches the mail",
   "No run of the program, whether indexing, searching or dumping, with good or bad settings, expressions and index, and whatever fails on the way, changes, creates, renames or removes anything but the index, its lock and, in a search, entries of the result folder.",
   ["faults", "inputs"], "all system calls that may fail, all result formats, states of the result folder and kinds of damaged index",
   "The tests have no failing system calls, and do not look at the mail afterwards.",
   ["mairix.c", "search.c", "writer.c", "rfc822.c"], [("run", "mairix.c: main"), ("results", "search.c: search_top, clear_maildir_subfolder, clear_mh_folder"), ("index", "writer.c: write_database")],
   "the whole program over a file system in memory; one failing call per run")
P_("P30", "After a run that failed or was killed nothing is wrongly found",
   "When an indexing run fails at any system call or is killed at any point, the next run either refuses the index as damaged, and this only if the run was really stopped while it wrote it, or goes on to find exactly the messages now in the folders: none is missing, stale or found twice.",
   ["faults", "crash_points", "history"], "all system calls that may fail, all basic blocks of the code that writes the index as points of being killed, all states before",
   "Tests do not interrupt the program or make system calls fail.",
   ["writer.c", "reader.c", "db.c", "rfc822.c", "mairix.c"], [("writing", "writer.c: write_database, write_magic"), ("reading", "reader.c: open_db"), ("unreadable messages", "db.c: scan_new_messages")],
   "the whole program over a file system in memory; stores reach the file in program order, power loss is not modelled; a damaged index is refused and has to be rebuilt by hand")
