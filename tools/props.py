#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json (both committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, hook=None):
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
                          "observe_at": observe or ["exit status, standard output and standard error of the tools", "the index file"],
                          "hook_needed": hook}})


CI, CS, CG, CW = "cmd/cindex/cindex.go", "cmd/csearch/csearch.go", "cmd/cgrep/cgrep.go", "cmd/csweb/web.go"
IW, IM, IR, IP, IQ, RM, RG = "index/write.go", "index/merge.go", "index/read.go", "index/path.go", "index/regexp.go", "regexp/match.go", "regexp/regexp.go"

prop("C01", "Any history of cindex runs leaves exactly the documented index",
     "After any sequence of cindex runs (with paths, without paths, with -reset) and any edits between them, the index lists each file that cindex was last asked to index exactly once, with the text it had at that run, and nothing else: files under the paths of the last run are replaced, added or dropped, files under other indexed paths are kept as they were, and cindex -list prints exactly the union of the requested paths with nested ones folded away. Hidden or temporary names (starting with '.', '#' or '~', or ending with '~'), symbolic links, special files, files that are not text and files with malformed names are left out, and nothing else is.",
     ["histories", "inputs", "configurations"],
     "all trees, all sequences of indexing runs and edits, all flush and merge boundaries, all orders in which path arguments are given",
     "the tests index two or three tiny literal files and merge a handful of hand-written lists; the claim ranges over histories of merges, buffer boundaries and path nestings",
     [CI, IW, IM, IP, IR], [("incremental merge of the old and new index", IM), ("flush of sorted post lists and k-way merge", IW), ("path order and nesting", IP), ("walk, hidden-name rule, argument handling", CI)],
     state=[("index file", "roots, names and trigram post lists", IW)])
prop("C02", "Index-backed search prints exactly what grepping every indexed file would",
     "For every regular expression and every index, csearch prints exactly the lines that a line-by-line grep of all the indexed files prints, as long as those files have not changed since they were indexed: no match in an indexed file is ever missed and none is invented, with or without -brute, -i, -f, -n, -h, -l, -c, -A, -B, -C and -html. A file that changed or vanished after indexing contributes either its correct current matches or nothing, and the exit status is 0 exactly when something was printed.",
     ["inputs", "histories"], "all trees, patterns, flag combinations and indexing histories, including stale indexes",
     "the tests check a few dozen patterns against expected query strings and matcher results on literal strings; they never compare an index-backed search with the real matches",
     [CS, IQ, IR, RM, RG, IM, IW], [("regular expression to trigram query", IQ), ("post list intersection and union", IR), ("search loop", CS), ("line matcher and printer", RM)])
prop("C03", "A cindex run killed at any moment leaves the old or the new index",
     "If a cindex run is killed at any instant, the index file afterwards is either byte-for-byte usable as the one that existed before the run or as the one the completed run would have installed; it is never partial, missing, mixed or unreadable. Searches and further cindex runs then work on it without any manual cleanup.",
     ["crash_points", "histories"], "every system call of every cindex run (before it, and part way through a write), in every history",
     "no test kills cindex; the claim is about the instants between its several hundred system calls",
     [CI, IW, IM], [("index built in a file of its own and renamed into place", CI), ("merge writes a new file", IM)])
prop("C04", "Power loss leaves the old or the new index, whole",
     "If the machine loses power at any instant during or after a cindex run, then after restart the index file is complete and is the one from before the run or the one from after it. This must hold whatever subset of not-yet-synced data and directory updates reached the disk.",
     ["crash_points", "fault_sequences"], "every instant of a cindex run and after its exit, every legal set of surviving writes of a journalling file system",
     "no test models a disk cache; ordering of data against the rename that publishes it cannot be seen on a running system",
     [CI, IW], [("fsync before the rename that installs the index", CI)])
prop("C05", "A failed, short or refused write is never reported as success",
     "If any system call with which cindex creates, writes, copies, re-reads, maps, syncs, closes, renames or removes the index or its temporary files fails, or the disk is full, cindex either completes with a correct index or exits non-zero with a message, leaving a complete index: the one from before the run or the one that was asked for. It never exits 0 with an index that is damaged or lacks requested content, never hangs and never damages the previous index.",
     ["fault_sequences", "crash_points"], "every write-side system call failing with every errno it can give, short writes, and every amount of free disk space",
     "no test makes a system call fail",
     [CI, IW, IM, IR], [("error checks of the buffered writer", IW), ("temporary files and copying", IW), ("installation of the finished index", CI)])
prop("C06", "A file or directory that cannot be read costs only itself and is reported",
     "When reading any file or directory of the tree fails during a cindex run (or a path argument does not exist, a file is unreadable, or a zip archive is damaged), every other file is indexed exactly as if the failure had not happened, the run finishes with exit status 0, and the failing file or directory is named on standard error. Nothing of the failing file's earlier state is left in the index under a wrong text.",
     ["fault_sequences", "inputs"], "every open, read, stat and directory-read call on the source tree, one or more failing",
     "the tests contain no unreadable input and no failing reader",
     [CI, IW], [("walk callback's error handling", CI), ("per-file indexing errors", IW)])
prop("C07", "A search that overlaps a re-index sees the old or the new index, whole",
     "A csearch that runs while cindex is building and installing a new index gives exactly the answer it would have given on the complete old index or on the complete new one; it never crashes, never mixes them and never sees an intermediate file.",
     ["schedules", "histories"], "all interleavings of a cindex run with csearch runs at system-call granularity",
     "no test runs two programs at once",
     [CI, CS, IR], [("rename of a finished index over the old one", CI), ("index mapped once per search", IR)])
prop("C08", "Overlapping cindex runs leave one complete, correct index",
     "However several cindex runs overlap, and even if some of them are killed, none of them panics, a run that is itself undisturbed succeeds unless another one removes the index meanwhile, and the index afterwards is complete and is the result of running some of them one after another in some order. A later run then behaves normally, and when all succeed no temporary file is left.",
     ["schedules", "crash_points"], "all interleavings of two or three cindex runs at system-call granularity, with kills",
     "no test runs two programs at once",
     [CI, IW], [("temporary names private to a run", CI)])
prop("C09", "cgrep's output does not depend on how its input arrives",
     "For every input, however the operating system splits it into reads, wherever the internal buffer boundaries fall and however often calls are interrupted, cgrep prints exactly the lines that match, with correct names, line numbers, counts and context for -n, -c, -l, -h, -i, -v, -A, -B and -C, and its exit status says whether anything matched. This holds for files and standard input, with or without a final newline, as long as each line with its context fits the buffer. A longer line may be reported in pieces or without its context, but it does not stop cgrep, and the lines that fit are printed all the same, with their right numbers.",
     ["inputs", "schedules"], "all inputs, patterns, flags, read fragmentations, interruptions and buffer sizes",
     "the tests search short literal strings that arrive in one read and fit one buffer",
     [CG, RM], [("chunked reader and line splitter", RM), ("match loop and context buffer", RM)],
     hook="buffer size tunable under the verif tag (regexp/tune_verif.go)")
prop("C10", "Search-time errors are contained and never silent",
     "If reading a file fails while csearch or cgrep searches it, the other files' results are complete and the failure is named on standard error; if standard output cannot be written, the program exits non-zero; if the index cannot be read, csearch and cindex -list say so and exit non-zero rather than printing wrong or partial results; a pattern that is no regular expression is refused with a message; when files change while csearch searches them, what it prints for the others is exact. No such error makes a search or a listing crash with a panic, hang or print lines that do not match.",
     ["fault_sequences"], "every read-side system call failing, and standard output failing after any number of bytes",
     "no test makes a read or a write fail",
     [CS, CG, RM, IR], [("reader loop's error reporting", RM), ("output flush at exit", CS + ", " + CG)])
prop("C11", "The index depends only on the tree and the command",
     "Running the same cindex command on the same files from the same previous index yields a byte-for-byte identical index, whatever the directory order, read fragmentation, interrupted calls, clock, temporary names, hash seeds, flush thresholds and buffer sizes.",
     ["schedules", "configurations"], "all environments in which the same command can run",
     "a test compares one run with itself in one environment at most",
     [IW, IM, CI], [("sorting of names and post entries", IW), ("merge", IM)],
     hook="flush and buffer thresholds tunable under the verif tag (index/tune_verif.go)")
prop("C14", "Files changing while cindex runs affect only themselves",
     "If files are created, changed, replaced, renamed or removed while cindex is walking the tree, the run still succeeds, every file that was not touched is indexed exactly, and the resulting index is well formed. Once the tree is quiet, the next run indexes it exactly.",
     ["schedules", "histories"], "all interleavings of a cindex run with edits of its tree",
     "no test changes the tree during a run",
     [CI, IW], [("walk callback with missing files", CI)])
prop("C15", "With -zip, archive members are indexed and searched like files",
     "With -zip, every text member of every readable zip archive is indexed once under the archive's name and its own, re-indexing replaces an archive's members as a whole, and csearch finds exactly the matches in the members' uncompressed text. A damaged archive or member costs only itself and is reported.",
     ["inputs", "histories", "fault_sequences"], "all archives (compressed or stored, damaged, with repeated or odd names) in all histories",
     "no test covers -zip",
     [IW, CI, CS], [("zip member walk and order", IW), ("zip lookup when searching", CS)])
prop("C16", "Nothing is written except the index and private temporary files",
     "cindex never creates, changes, renames, removes or changes the mode of any file except the index, its temporary siblings and files in the temporary directory, even when it fails or is killed or the index lies inside an indexed tree; csearch, cgrep and cindex -list write nothing at all. After a successful run no temporary file remains, the index lists neither itself nor its temporary siblings, and only the owner can read it.",
     ["fault_sequences", "crash_points", "histories"], "all runs with and without faults and kills",
     "no test looks at what else is on the disk",
     [CI, IW, IM, IR], [("temporary files removed after being opened or merged", IW), ("removal and rename of intermediate files", CI)])
prop("C17", "A cut-off index is refused loudly",
     "If the index file is a strict prefix of a valid index, cindex, cindex -list and csearch refuse it with a message and a non-zero exit status, print no results and leave the file as it is. They never present the remaining part as the whole.",
     ["inputs", "crash_points"], "all valid indexes, all lengths shorter than the whole, all commands that read an index",
     "no test opens a truncated index",
     [IR, IM], [("trailer check and bounds-checked access", IR)])
prop("C18", "Indexes in the old format stay searchable and updatable",
     "An index written in the older 32-bit format gives exactly the same search results and path list as an index of the same files in the current format, and any sequence of incremental cindex runs starting from it leaves exactly the index the same history would have left starting from a current one.",
     ["inputs", "histories"], "all old-format indexes and all histories starting from them",
     "the tests read a few tiny old-format samples and never update one",
     [IR, IM, IW], [("version-dependent readers", IR), ("merge across versions", IM)])
prop("C19", "The next undisturbed run recovers from any failures before it",
     "After any sequence of cindex runs that were killed, lost power, ran out of disk space or met write errors, an undisturbed cindex run on named paths succeeds without manual cleanup and leaves an index that holds exactly those paths' current files together with what a complete earlier index held for other paths.",
     ["histories", "crash_points", "fault_sequences"], "all histories mixing disturbed and undisturbed runs",
     "no test has a failing run, let alone a sequence",
     [CI, IW, IM], [("left-over temporary files never reused or mistaken for the index", CI)])
prop("C20", "The built-in consistency check accepts every index cindex makes",
     "cindex -check never rejects, and never crashes or hangs on, an index that cindex itself produced, whatever the tree and history; with -check a run that would otherwise succeed succeeds.",
     ["inputs", "histories"], "all trees and histories",
     "the tests never run the checker on an index built from a history",
     [IR, CI], [("index checker", IR)])

prop("C12", "Concurrent web requests do not affect one another",
     "Whatever requests csweb is serving at the same time and in whatever order their handlers' steps interleave, each client receives exactly the response it would have received if its request had been the only one the server ever saw, on the index and files as they were at some moment while the request was served (the time a search took excepted). No request waits forever for another one.",
     ["schedules", "histories"], "all sets of requests and all interleavings of their handlers at statements and system calls, also while cindex replaces the index",
     "csweb has no tests at all; interleavings of handlers cannot be sampled by ordinary tests",
     [CW, RM, IR], [("per-request index and matcher state", CW), ("search and show handlers", CW)],
     observe=["HTTP responses of csweb"])
prop("C13", "The web server survives whatever a request meets",
     "No request and no failure while serving it ends csweb, stops it from answering other requests, or leaks resources that accumulate: not a missing, cut-off, damaged or replaced index, not files that fail to open, fail to read, are devices or FIFOs, not malformed queries or requests, not clients that go away. Once the cause is gone, csweb answers every request as a freshly started server would.",
     ["fault_sequences", "inputs", "histories"], "all requests, index states, failing system calls and client disconnections",
     "csweb has no tests; failures and long request sequences are out of reach of unit tests",
     [CW, IR, RM], [("errors of opening and searching the index", CW), ("file and directory pages", CW), ("opening an index without exiting the process", IR)],
     observe=["HTTP responses of csweb", "its exit", "its open descriptors and maps when idle"])
prop("C34", "Web pages show what the files hold and nothing else",
     "A result page of csweb lists exactly the lines that match the query in the indexed files (up to its declared limit), a file page exactly the file's text with line numbers, and a listing exactly the directory's entries, for every query, file name and file content. Nothing in a query, a name or a text can add markup or scripts to a page, and every link of a page leads to the file, line or directory that it names. csearch -html marks up its matches with the same care.",
     ["inputs", "histories", "schedules"], "all queries, file names, texts, trees and fragmentations of reads",
     "csweb has no tests; the input space is unbounded",
     [CW, RM], [("page templates and escaping", CW), ("HTML output of the matcher", RM)],
     observe=["HTTP responses of csweb"])

NA = [
    ("C30", "The line matcher accepts the same lines as Go's regexp package",
     "For every pattern and text, the DFA matcher reports the end of a matching line exactly where Go's regexp package, applied per line, finds a match.",
     ["inputs"], [RG, "regexp/utf.go", RM], "pure function of pattern and text: no scheduling, time, I/O, randomness or second party for a simulator to control (its effect on the tools' output is exercised end to end by C02 and C09)"),
    ("C31", "A trigram query is implied by its regular expression",
     "Every text that matches a regular expression satisfies the trigram query derived from it.",
     ["inputs"], [IQ], "pure function of the pattern; nothing for a simulator to schedule or to fail (its effect on search completeness is exercised end to end by C02)"),
    ("C32", "The sparse set behaves as a set",
     "Any sequence of additions and resets of the sparse set leaves it holding exactly the values added since the last reset.",
     ["inputs"], ["sparse/set.go"], "in-memory, single-threaded data structure without I/O or time"),
    ("C33", "Delta, gamma and path-list codecs decode what they encoded",
     "Every list of increasing numbers or paths that is written with the index codecs reads back unchanged.",
     ["inputs"], [IW, IR, IP], "pure encoding without concurrency, time or faults (round trips through whole indexes are exercised by C01 and C18)"),
    ("C35", "Index mapping behaves alike on Windows and BSD",
     "The memory-mapping code for Windows and BSD opens, reads and refuses index files exactly as the Linux one does.",
     ["configurations"], ["index/mmap_windows.go", "index/mmap_bsd.go"], "code for other operating systems cannot be executed in this sandbox, so no simulated run can include it"),
]
for id, title, st, over, files, reason in NA:
    prop(id, title, st, over, "all inputs", "the input space is unbounded and the tests sample it", files, [("see files", files[0])])

TECH = {
    "C01": "deterministic simulation of whole cindex histories on a simulated kernel, refinement against a reference model",
    "C02": "deterministic simulation of index/search histories against a reference grep",
    "C03": "deterministic simulation with a kill injected at system calls",
    "C04": "deterministic simulation with power loss and seeded choice of surviving writes",
    "C05": "deterministic simulation with failing, short and refused writes",
    "C06": "deterministic simulation with failing reads of the source tree",
    "C07": "deterministic simulation of interleaved cindex and csearch processes",
    "C08": "deterministic simulation of interleaved cindex processes with kills",
    "C09": "deterministic simulation of fragmented and interrupted reads against a reference grep",
    "C10": "deterministic simulation with failing reads and output",
    "C11": "deterministic simulation: same command under many environments, byte comparison",
    "C12": "deterministic simulation of csweb with seeded interleaving of request handlers at statements and system calls",
    "C13": "deterministic simulation of csweb with failing system calls, damaged indexes and vanishing clients",
    "C34": "deterministic simulation of csweb's pages and links against a reference grep and the simulated disk",
    "C14": "deterministic simulation of edits interleaved with a cindex run",
    "C15": "deterministic simulation of zip histories against the reference model",
    "C16": "deterministic simulation with faults and kills, whole-disk comparison",
    "C17": "deterministic simulation offering truncated indexes to every tool",
    "C18": "deterministic simulation of histories starting from an independently encoded old-format index",
    "C19": "deterministic simulation of histories with kills, power loss, full disks and write errors",
    "C20": "deterministic simulation of histories, checker run on every produced index",
}
LEVEL = {c: "exploration" for c in TECH}
for c in ["C03", "C04", "C05", "C06", "C10", "C13", "C16", "C17"]:
    LEVEL[c] = "fault_enumeration"
NOTE = ("Seeded search, not proof: the shipped binaries run whole on a simulated kernel; every run is repeatable from its seed. "
        "Trusts the simulated kernel's file-system semantics and the reference model in sim/model.go and sim/grepmodel.go. ")
WEB = "csweb runs whole except for net/http's connection handling: requests come from the simulator and each runs in its own goroutine (overlay/sim_web_http.go.txt). "
EXTRA = {
    "C12": WEB, "C13": WEB, "C34": WEB,
    "C04": "Power loss follows an ordered-journal or data-only sync model; the directory is not assumed synced by rename. ",
    "C09": "Lines longer than the buffer allows are outside the property. ",
    "C03": "Kill points are sampled evenly over a run's system calls, most of them in its write phase. ",
}
P.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks = []
for c in sorted(TECH):
    checks.append({"property": c, "quick_cmd": "./check.sh " + c, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + c,
                   "evidence_file": "evidence/%s.json" % c, "technique": TECH[c], "level": LEVEL[c], "level_note": NOTE + EXTRA.get(c, "")})
man = {"version": 1, "setup_cmd": "./check.sh setup",
       "hooks": {"guard": "verif", "enable": "go build -tags verif (check.sh adds -overlay for the simulated system-call layer of the Go standard library, which lives in /verif/overlay)",
                 "source_commits": HOOKS if "HOOKS" in globals() else ["d3686f1d038cf0d734c7cdf9a72730c3f888a125"]},
       "checks": checks,
       "not_applicable": [{"property": n[0], "reason": n[5]} for n in NA],
       "notes": "See DESIGN.md. check.sh replay FILE executes a replay file; check.sh selftest compares repeated executions."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
