#!/usr/bin/env python3
"""The property list: writes properties.jsonl and MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def P_(id, title, statement, over, text, why, files, mech, level_note):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), note=level_note))


P_("P01", "Message-number lists read back exactly what was recorded",
   "For every word, the list of messages that contain it reads back exactly the set of message numbers that was recorded, each once and in ascending order, however large the numbers and however they are spaced. This holds for a list built in one go, for one loaded from an index file, and for one that is loaded and then extended.",
   ["inputs", "histories"], "all non-decreasing sequences of message numbers (duplicates included), all places where the encoding changes width or the buffer grows, with and without a store/load in between",
   "The tests index about a dozen messages, so only one-byte steps and no growth of a list's buffer are ever exercised.",
   ["tok.c", "reader.c", "db.c"], [("delta encoding with 1/2/4-byte steps", "tok.c: insert_value, check_and_enlarge_encoding"), ("decoding", "reader.c: read_increment"), ("copying from the file", "db.c: import_toktable")],
   "every path, all numbers below 0x3f000000, up to 37 entries")
P_("P02", "The word table never loses, merges or splits a word",
   "After any sequence of additions the table of words holds exactly the distinct words that were added (compared without regard to upper and lower case), each with exactly the messages it was added for. Collisions and growth of the table change nothing.",
   ["inputs", "histories"], "all words, all hash values (so all collision patterns), all orders of additions, across table growth",
   "The outcome depends on hash collisions and on growth at particular fill levels; the tests reach only those their few words produce.",
   ["tok.c", "hash.c"], [("open addressing and growth", "tok.c: add_token_in_file, add_token2_in_file, enlarge_toktable")],
   "hash values are free solver variables; the table is shrunk so that it grows")
P_("P03", "Wildcard patterns match exactly the names they describe",
   "A folder or omit pattern matches a name exactly when the pattern describes it: * any run of characters other than / (possibly none), ** any run including /, ? any one character, [set] one character of the set (which may contain ranges, a ] in first place and a - in last place), anything else itself. The whole name has to match, and of several patterns any one suffices.",
   ["inputs", "configurations"], "all patterns and all names within the length bound, bytes 128-255 included",
   "No test contains a wildcard with more than one special character; agreement with the definition is a statement about all pairs.",
   ["glob.c"], [("bit-parallel matcher", "glob.c: make_globber, is_glob_match, parse_charclass")],
   "all patterns and names up to the stated lengths")
P_("P04", "Substring and approximate matching follow the edit distance",
   "Searching for word= finds exactly the stored words that contain the given text, and word=N exactly those containing a substring within N insertions, deletions or substitutions of it. A leading ^ restricts this to the start of the word when no errors are allowed.",
   ["inputs"], "all search texts and stored words within the length bounds, for every number of errors the program handles specially",
   "There is separate bit-vector code for 0, 1, 2, 3 and more errors; the tests try a handful of word pairs against it.",
   ["search.c"], [("bit-parallel approximate matching", "search.c: substring_match_0 .. substring_match_general, build_match_vector")],
   "against a reference edit-distance computation")
P_("P05", "A query returns exactly the messages that satisfy it",
   "The result of a search is exactly the messages that satisfy all its arguments, where / is or, , is and, ~ is not, and each field letter looks in its own field; flags, size, message-id and path conditions have their documented meaning. With -t it is exactly the undeleted messages sharing a thread with one of those, and results are delivered in order of date.",
   ["inputs", "histories"], "all argument texts over the query alphabet within the length bound, all assignments of words, flags, sizes, dates and threads to messages",
   "The test suite runs a few dozen fixed queries on one mailbox; the property is over all queries and all index contents.",
   ["search.c", "reader.c"], [("argument parsing and evaluation", "search.c: do_search, find_flag_matches, find_size_matches"), ("thread expansion", "search.c: get_max_thread..., -t handling"), ("ordering", "search.c: sort by date")],
   "index images built in memory in the file format")
P_("P06", "Writing the index and reading it back loses and changes nothing",
   "Reading an index file that was just written yields the same messages (kind, place, size, date, thread, flags), mailboxes, words and message ids as were in memory, whatever was in the file before. Every byte of the file is determined by the content.",
   ["inputs", "histories"], "all combinations of message kinds and all field values; all word tables within the bound, with an older, longer or shorter file in place",
   "Tests read back one index of a dozen messages of two kinds; stale bytes and rarely used kinds go unnoticed.",
   ["writer.c", "reader.c", "db.c"], [("layout and writing", "writer.c: write_database and helpers"), ("reading", "reader.c: open_db"), ("rebuilding", "db.c: new_database_from_file")],
   "the file is a memory image")
P_("P07", "Purging removes deleted messages and nothing else",
   "After a purge the remaining messages are the undeleted ones in their old order with all their attributes, and every word and message id lists exactly the surviving messages it listed before, under their new numbers. Words left with no message disappear.",
   ["inputs", "histories"], "all subsets of messages being dead, all word lists over them, all attribute values",
   "One test purges one mailbox; which messages are dead and which words they share is a combinatorial choice.",
   ["db.c", "mbox.c"], [("renumbering", "db.c: cull_dead_messages, recode_encoding, recode_toktable"), ("mailboxes", "mbox.c: cull_dead_mboxen")],
   "subsets are split per path, values are solver variables")
P_("P08", "Messages are in one thread exactly when references connect them",
   "Two messages get the same thread number exactly when they are connected through Message-ID, In-Reply-To and References, also through messages that are not in the index or have been removed. Thread numbers stay below the number of messages, in whatever order the messages were indexed.",
   ["inputs", "histories"], "all reference graphs within the bound, all orders of arrival, some messages removed between two runs",
   "Connectivity is transitive and incremental; the tests contain a single small thread.",
   ["db.c"], [("connected components over message ids", "db.c: find_threading, update_database")],
   "graphs and orders are enumerated per path, identities by the solver")
P_("P09", "Every message in a mailbox file is found with its exact extent",
   "Every message of an mbox or MMDF file is indexed with exactly the text between its separator and the next (or the end of the file), and text that merely resembles a separator does not split a message. Chunks that belong to one MIME message because of an unfinished multipart body are joined again.",
   ["inputs"], "all file contents within the bound, all shapes of separator lines, all distributions of unfinished multipart chunks",
   "The test mailboxes are well formed; odd line endings and near-separators are not in them.",
   ["mbox.c", "fromcheck.nfa"], [("separator scan", "mbox.c: find_next_from, looks_like_from_separator, find_next_mmdfsep"), ("joining", "mbox.c: add_mbox_messages")],
   "the MIME parser is a stand-in that demands a number of chunks")
P_("P10", "Re-indexing a changed mailbox reflects exactly its present messages",
   "After messages have been deleted from mailbox files and others appended, mailboxes have come and gone, and mairix has been run again, the index holds exactly the messages now in the mailboxes, each with its present position and its own words. A mailbox that cannot be read in one run is indexed when it can be read again. This assumes that the change shows in the file's time or size and that no message's text is part of another's.",
   ["histories", "inputs"], "all subsets deleted and any number appended within the bound, all message contents and file times",
   "The tests re-index a mailbox once after an append; the interesting part is which prefix is recognised as unchanged.",
   ["mbox.c", "db.c"], [("finding the intact prefix", "mbox.c: find_number_intact, rescan_mbox"), ("retiring old messages", "db.c: check_mboxen / update_database")],
   "MD5 is replaced by an ideal checksum")
P_("P20", "An update brings file folders and index into agreement",
   "After an update run the index lists every message file that is present, exactly once and with its current attributes; files that vanished are marked deleted and files whose time or size changed are read again. Entries for unchanged files keep their number and words.",
   ["histories", "inputs"], "all combinations of kept, changed, removed and new files, all names and times",
   "Tests add files once; they do not combine removal, change and addition.",
   ["db.c"], [("matching stored and present files", "db.c: update_database, lookup_msgpath, scan_new_messages")],
   "the directory is a list of names")
exec(open(os.path.join(V, "vf", "props_more.py")).read()) if os.path.exists(os.path.join(V, "vf", "props_more.py")) else None


def main():
    sys.path.insert(0, os.path.join(V, "vf"))
    from jobs import PROPS
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k != "note"}) + "\n")
    na = {n["property"] for n in NA}
    checks = []
    for p in P:
        if p["id"] in na:
            continue
        assert p["id"] in PROPS, p["id"]
        checks.append(dict(property=p["id"], quick_cmd="python3 vf/check.py " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 vf/check.py " + p["id"],
                           technique="symbolic execution of the compiled code (LLVM bitcode) with Z3, counterexamples replayed natively",
                           level="model_checking", level_note="bounded: " + p["note"] + "; bounds and stand-ins per job in BOUNDS.md and the evidence file",
                           evidence_file="evidence/%s.json" % p["id"]))
    assert {c["property"] for c in checks} == set(PROPS), set(PROPS) ^ {c["property"] for c in checks}
    json.dump(dict(version=1, setup_cmd="python3 vf/check.py --setup", checks=checks, not_applicable=NA,
                   notes="vf/check.py decides one property; vf/jobs.py lists the harnesses, bounds and stand-ins; known-findings.json lists repaired and open defects."),
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    cell = lambda t: " ".join(str(t).split()).replace("|", "\\|")
    with open(os.path.join(V, "BOUNDS.md"), "w") as f:
        f.write("# Bounds and stand-ins of every job\n\nWritten by `vf/props.py` from `vf/jobs.py`. Jobs marked (t) run in the thorough tier only.\n"
                "\"The index, in memory\" and the like say what takes the place of the environment; all other code is /repo's.\n")
        for p in P:
            if p["id"] in na:
                continue
            f.write("\n## %s %s\n\n| job | /repo sources linked | bounds | stand-ins |\n|---|---|---|---|\n" % (p["id"], p["title"]))
            for j in PROPS[p["id"]]["jobs"]:
                f.write("| %s%s | %s | %s | %s |\n" % (j["name"], " (t)" if j.get("tier") == "thorough" else "", " ".join(j["link"]),
                                                     cell(j.get("bounds", "")), cell(j.get("stubs", ""))))


if __name__ == "__main__":
    main()
