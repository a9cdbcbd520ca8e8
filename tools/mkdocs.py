#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
U = "src/cmd/util.rs"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None, note="", py=False):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, state=state,
                  observe=observe, hook=hook, note=note, py=py))
NOW = "The existing tests are 7 single-threaded unit tests of the tokenizer, the n-gram iterator, TopKNgrams and one NgramCounter call; none starts a command, a second thread or a failing file."

prop("C01", "topk reports exactly the k most frequent n-grams",
 "With a table large enough to avoid collisions, topk reports exactly the k most frequent n-grams whose count exceeds the threshold, with their exact corpus counts, in descending order. The set of reported counts is the same for every number of workers and every thread schedule, and nothing a worker found is lost.",
 ["schedules", "inputs", "configurations"], "every corpus, worker count, channel capacity and interleaving of workers and collector",
 "Quantifies over thread interleavings. " + NOW, ["src/cmd/topk.rs", "src/ngrams/counter.rs", "src/ngrams/topk.rs", U],
 [("shared counting Bloom filter updated by all workers", "src/ngrams/counter.rs increment"), ("per-file top-k merged over a channel with a shared minimum", "src/cmd/topk.rs, src/ngrams/topk.rs insert")],
 state=[("count_array", "shared counters", "src/ngrams/counter.rs"), ("min_count", "minimum of the global top-k", "src/ngrams/topk.rs")],
 observe=["stdout of wimbd topk --json"], hook="channel capacity settable under cfg(wimbd_sim)")
prop("C02", "topk never under-reports, however small the counter table",
 "With any table size and number of hash functions, the count topk reports for an n-gram is at least its true count and the n-gram occurs in the corpus. No n-gram above the threshold whose true count exceeds that of the last entry is left out, and a list shorter than k contains every n-gram above the threshold.",
 ["schedules", "inputs", "configurations"], "every corpus, table size, number of hash functions and interleaving",
 "Needs colliding tables and concurrent updates of the same cells; the only counter test makes two calls and checks nothing.", ["src/cmd/topk.rs", "src/ngrams/counter.rs"],
 [("minimum over the cells of an n-gram", "src/ngrams/counter.rs increment"), ("threshold and minimum tests before insertion", "src/cmd/topk.rs")], observe=["stdout of wimbd topk --json"])
prop("C03", "botk reports exactly the k least frequent n-grams",
 "With a table large enough to avoid collisions, botk reports exactly the k least frequent n-grams whose count is below the threshold, with exact counts in ascending order, under every schedule and worker count. With smaller tables the reported counts are never below the true ones and only n-grams of the corpus are reported.",
 ["schedules", "inputs", "configurations"], "every corpus, threshold, table size, worker count and interleaving",
 "Two parallel passes with a barrier between them. " + NOW, ["src/cmd/botk.rs", "src/ngrams/counter.rs", "src/ngrams/topk.rs"],
 [("counters count down from the maximum, the second pass collects the largest", "src/cmd/botk.rs")], observe=["stdout of wimbd botk --json"])
prop("C04", "count reports the exact number of occurrences",
 "count reports, for every search string, exactly how often its token sequence occurs in the token sequences of the documents, under every schedule, worker count and way the input is delivered.",
 ["schedules", "inputs", "configurations"], "every corpus, search strings, worker count and interleaving",
 "Sums over worker threads. " + NOW, ["src/cmd/count.rs", U], [("shared atomic count per search string", "src/cmd/count.rs")], observe=["stdout of wimbd count --json"])
prop("C05", "search reports every match and every location exactly once",
 "search reports for every pattern exactly the number of non-overlapping matches in all documents. With locations it lists each matching document of each file once, with its line number, its text and the byte ranges of all matches.",
 ["schedules", "inputs", "configurations"], "every corpus, patterns, worker count, channel capacity and interleaving of workers and collector",
 "Locations travel through a bounded channel to a collecting thread; a lost message is a matter of timing. " + NOW, ["src/cmd/search.rs", U],
 [("per-file location lists sent over a channel", "src/cmd/search.rs")], observe=["stdout of wimbd search --json"], hook="channel capacity settable under cfg(wimbd_sim)")
prop("C06", "search --locations-limit lists min(limit, matches) locations",
 "With a locations limit the match count stays exact and the number of match ranges listed for a pattern is exactly the smaller of the limit and the number of matches. Every range listed is a real match.",
 ["schedules", "inputs"], "every corpus, limit and interleaving of the workers that share the limit",
 "The limit is shared by all workers through one atomic counter. " + NOW, ["src/cmd/search.rs"], [("fetch_add decides which worker may still collect", "src/cmd/search.rs")], observe=["stdout of wimbd search --json"])
prop("C07", "stats totals and longest/shortest documents are exact",
 "stats reports the exact numbers of tokens, documents and bytes and the exact largest and smallest document length. The lists of longest and shortest documents hold exactly the documents of that length, each once, under every schedule.",
 ["schedules", "inputs"], "every corpus, worker count and interleaving of the workers that merge their results",
 "Merging prunes and appends to shared lists from several threads. " + NOW, ["src/cmd/stats.rs", U], [("merge of local statistics, pruning of outdated documents", "src/cmd/stats.rs")], observe=["stdout of wimbd stats --json"])
prop("C08", "a fixed hash seed makes results reproducible",
 "Two runs of unique or botk with the same options, the same input and the same hash seed report the same counts, whatever the number of workers, the schedule and the process-wide randomness, even when the counter table is so small that n-grams collide and counters saturate.",
 ["schedules", "configurations"], "every pair of schedules, worker counts and sources of randomness",
 "Compares two runs of a multi-threaded program. " + NOW, ["src/ngrams/counter.rs", "src/cmd/unique.rs", "src/cmd/botk.rs"], [("hash functions derived from the seed alone", "src/ngrams/counter.rs new"), ("order-independent, saturating counter updates", "src/ngrams/counter.rs")], observe=["stdout of two runs"])
prop("C09", "unique estimates the number of distinct n-grams",
 "With a table several times larger than the number of distinct n-grams, unique reports that number with a small relative error, for any number of hash functions, workers and any schedule.",
 ["schedules", "inputs", "configurations"], "every corpus, number of hash functions, worker count and interleaving",
 "No test runs the command. " + NOW, ["src/cmd/unique.rs", "src/ngrams/counter.rs"], [("cells in use turned into an estimate", "src/cmd/unique.rs")], observe=["stdout of wimbd unique --json"])
prop("C10", "damaged input makes a command fail without results",
 "If any input file is missing, truncated, corrupt, not gzip or contains a malformed line or text that the chosen tokenizer rejects, the command ends with a nonzero exit status and reports no results, neither on standard output nor in the output file. A partial or silently shortened result is never presented as complete.",
 ["inputs", "schedules", "fault_sequences"], "every command, position of the damage, worker count and interleaving",
 "The failing worker must reach the main thread at whatever moment it fails. " + NOW, [U, "src/io.rs", "src/main.rs"], [("early-exit flag and stored error, checked when joining", U)], observe=["exit status, stdout, output file"])
prop("C11", "system errors never lead to wrong results",
 "If opening, reading or inspecting an input file, starting a thread or allocating the counter table fails, the command either ends with a nonzero exit status and prints no results, or exits 0 with the exact result.",
 ["fault_sequences", "schedules"], "every position and combination of failing system calls and every interleaving",
 "Needs failing system calls at chosen points. " + NOW, [U, "src/io.rs", "src/ngrams/counter.rs"], [("errors propagate from the workers through the executor", U)], observe=["exit status, stdout"])
prop("C12", "stats recovers from transient read failures exactly",
 "If opening or reading each file fails at most twice and then works, stats succeeds and reports exactly what it would have reported without the failures: nothing is counted twice and nothing is missed.",
 ["fault_sequences", "schedules"], "every position of up to two failures per file and every interleaving",
 "Needs failures inside a file followed by success. " + NOW, [U, "src/cmd/stats.rs"], [("retry loop with a fresh local context per attempt", U)], observe=["stdout of wimbd stats --json"])
prop("C13", "how input bytes arrive does not change results",
 "Short reads, interrupted reads, slow reads, any split of the input into gzip members and any compression level give the same results as plain reads, for every command.",
 ["fault_sequences", "inputs", "schedules"], "every pattern of short, interrupted and delayed reads",
 "Real files return full reads; no test reads a gzip file at all.", ["src/io.rs", U], [("buffered multi-member gzip line reader", "src/io.rs")], observe=["stdout of every command"])
prop("C14", "every run ends",
 "Every command ends, with an ordinary exit status, after finitely many steps under every fair schedule: with any number of workers, with result channels that are full, with malformed input, with failing reads and with threads that cannot be started.",
 ["schedules", "fault_sequences", "configurations"], "every schedule, channel capacity and failure",
 "Deadlock, lost wake-ups and crashes depend on the schedule. " + NOW, [U, "src/cmd/topk.rs", "src/cmd/botk.rs", "src/cmd/search.rs", "src/progress.rs"], [("senders owned by the jobs, joined pool, early exit", U)], observe=["exit of the process within a step bound"], hook="channel capacity settable under cfg(wimbd_sim)")
prop("C15", "line and file limits are exact",
 "With a line limit each file contributes exactly its first lines up to the limit, and with a file limit exactly the first files in argument order are used, for every command, worker count and schedule.",
 ["inputs", "configurations", "schedules"], "every limit, corpus and interleaving",
 "No test runs a command with a limit. " + NOW, [U, "src/cmd/topk.rs", "src/cmd/botk.rs", "src/cmd/count.rs", "src/cmd/search.rs", "src/cmd/stats.rs", "src/cmd/unique.rs"], [("reader.take(limit), path.truncate(file_limit)", U)], observe=["stdout of every command"])
prop("C16", "output files are never overwritten without --force and hold exactly the results",
 "An existing output file is left untouched, and the command fails, unless --force is given. After a successful run the output file holds exactly the results and nothing of an earlier content, and a directory argument yields one file with a descriptive name inside it.",
 ["inputs", "configurations", "schedules"], "every command with an output option, prior state of the path and option combination",
 "No test writes an output file. " + NOW, ["src/util.rs", "src/cmd/topk.rs", "src/cmd/botk.rs", "src/cmd/count.rs", "src/cmd/search.rs", "src/cmd/stats.rs"], [("get_output_file", "src/util.rs")], observe=["files after the run, exit status"])
prop("C17", "a run that exits 0 has written its complete output",
 "If writing the results fails for any reason (no space, I/O error, failing open or directory creation, failing standard output) the command ends with a nonzero exit status. If it exits 0, the output is complete, also after short and interrupted writes.",
 ["fault_sequences", "inputs"], "every position of a failing or short write",
 "Needs full disks and failing writes. " + NOW, ["src/util.rs", "src/cmd/topk.rs", "src/cmd/botk.rs", "src/cmd/count.rs", "src/cmd/search.rs", "src/cmd/stats.rs"], [("errors of every write are propagated", "src/cmd/*.rs")], observe=["exit status, output file"])
prop("C18", "a killed run can simply be repeated",
 "After a command is killed at any instant, running it again with --force gives the same output as an undisturbed run. The input files are never modified and no other files are left behind.",
 ["crash_points", "inputs"], "every instant at which the process can die, including inside a write",
 "Needs crashes at arbitrary points. " + NOW, ["src/util.rs", "src/cmd/topk.rs", "src/cmd/botk.rs"], [("the output file is rewritten from the start", "src/util.rs")], observe=["files after the second run"])
prop("C19", "a directory argument means every JSON gzip file below it",
 "A directory given as input stands for all JSON gzip files below it, each used once, whatever the directory is called and in whatever order the file system lists it. If a directory cannot be listed or holds no such file the command fails instead of using a part.",
 ["inputs", "fault_sequences", "configurations"], "every tree, directory name, listing order and listing error",
 "No test expands a directory. " + NOW, [U], [("expand_dirs", U)], observe=["stdout and exit status of every command"])

sys.path.insert(0, os.path.join(V, "tools"))
try:
    import mkdocs_py
    mkdocs_py.add(prop)
except ImportError:
    pass
NA = []
try:
    import mkdocs_na
    mkdocs_na.add(prop, NA)
except ImportError:
    pass

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        if p["observe"]:
            a["observe_at"] = list(p["observe"])
        if p["hook"]:
            a["hook_needed"] = p["hook"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
        assert len(p["title"]) <= 80, p["id"]
nas = {n["property"] for n in NA}
RNOTE = ("Seeded search over simulated executions of the real program: a clean run is evidence over the explored schedules and faults, not a proof. "
         "Assumes sequentially consistent memory, thread switches only at atomic operations and system calls (sound for safe Rust), and the interposed libc calls as the only sources of nondeterminism (checked by re-running cases and comparing event hashes).")
checks = []
for p in P:
    if p["id"] in nas:
        continue
    cmd = "./check.sh " + p["id"]
    checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                   "technique": "deterministic simulation with fault injection (seeded search over schedules and faults of the real code, reference-model oracle)",
                   "level": "exploration", "level_note": p["note"] or RNOTE})
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep=^Hook:"], capture_output=True, text=True).stdout.split()
json.dump({"version": 1, "setup_cmd": "./build.sh all",
           "hooks": {"guard": "cfg(wimbd_sim)", "enable": "RUSTFLAGS with --cfg wimbd_sim, set by /verif/build.sh", "source_commits": hooks},
           "checks": checks, "not_applicable": NA,
           "notes": "check.sh builds what it needs from /repo's working tree under /verif/target and then runs the simulation driver. See DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
