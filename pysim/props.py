"""The properties decided by the Python simulation."""
import copy, errno, gzip, hashlib, io, json, os, re
import kernel, fakes
from engine import bad, gen_run, gen_sched, CALM, Violation
from kernel import REPO, mix

WORDS = ["the", "cat", "a", "dog", "x", "über", "naïve", "日本", "legal", "terms", "of", "use", "b", "c", "7"]


def gz(lines, mtime=0):
    b = io.BytesIO()
    with gzip.GzipFile(fileobj=b, mode="wb", mtime=mtime) as f:
        f.write("".join(lines).encode())
    return b.getvalue()


def text(r, n=None):
    n = r.choice([0, 1, 1, 2, 3, 5, 9]) if n is None else n
    return " ".join(r.choice(WORDS) for _ in range(n))


def jl(xs):
    return [json.dumps(x) + "\n" for x in xs]


def read_gz_rows(ctx, rel, run):
    b = ctx.read(rel)
    if b is None:
        return None
    try:
        s = gzip.decompress(b).decode() if rel.endswith(".gz") else b.decode()
        return [json.loads(l) for l in s.splitlines() if l]
    except (EOFError, ValueError, OSError) as e:
        bad("output_broken", f"run {run} ended with status 0 but {rel} cannot be read: {type(e).__name__}: {e}")


IO_ERRS = [errno.EIO, errno.EACCES, errno.ENOSPC]


def disk_fault(r, reads=True, writes=True, path=None, crash=True):
    """one random disk fault or a crash at a random point"""
    opts = []
    if writes:
        opts += ["write", "write", "open_w", "torn", "full", "close"]
    if reads:
        opts += ["read", "open_r"]
    if crash:
        opts += ["step", "step", "iocrash", "iocrash"]
    k = r.choice(opts)
    n = r.choice([0, 0, 1, 1, 2, 3, 5, 8])
    if k == "step":
        return {"op": "step", "nth": r.choice([r.randrange(1, 60), r.randrange(1, 400), r.randrange(1, 3000)]), "action": "crash"}
    if k == "iocrash":
        return {"op": r.choice(["write", "close", "opened_w", "open_w", "replace", "replaced", "read", "open_r", "mkdir", "remove"]), "path": path, "nth": n, "action": "crash"}
    if k == "torn":
        return {"op": "write", "path": path, "nth": n, "action": "torn", "arg": r.choice([0, 1, 7, 30, 200])}
    if k == "full":
        return {"op": "write", "path": path, "nth": n, "action": "full", "arg": r.choice([0, 1, 7, 30, 200])}
    return {"op": k, "path": path, "nth": n, "action": "err", "arg": r.choice(IO_ERRS)}


def crashed(w):
    return w.ctr.get("crashes", 0) > 0


class Prop:
    budget = (600, 20000)
    nontrivial_rule = ""
    rule = ""
    real = []
    stub = []
    assumptions = ["preemption points are lines or byte codes of the tool's own code, I/O calls and lock operations; memory is sequentially consistent",
                   "a crash keeps everything a completed write call handed to the system and loses what was still buffered in the program"]

    def valid(self, case):
        return True

    def nontrivial(self, case, ctx):
        return False


# ------------------------------------------------------------------ P01 deduplication and decontamination

class Dedup(Prop):
    id = "P01"
    budget = (12000, 500000)
    rule = ("one run of deduplicate_by_hash.py over generated shards and blocklist in a simulated process pool (and, after a failed or killed run, one more run without faults).")
    real = ["wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py", "wimbd/utils/utils.py", "gzip, json, numpy.memmap"]
    stub = ["multiprocessing.Pool and Lock (forked processes as baton-passing threads with namespaces of their own)", "smart_open.open (gzip.open or open)", "tqdm"]

    def gen(self, r, i):
        ntext = r.choice([1, 2, 3, 5, 8])
        texts = list(dict.fromkeys(text(r) + r.choice(["", "", " %d" % j]) for j in range(ntext)))
        shards = []
        jwa = r.random() < 0.5
        for s in range(r.choice([1, 2, 2, 3, 4])):
            docs = []
            for d in range(r.choice([0, 1, 2, 3, 4, 7])):
                t = r.randrange(len(texts)) if r.random() < 0.95 else None
                docs.append({"t": t, "src": r.choice(["A", "B"]) if jwa or r.random() < 0.8 else None})
            shards.append(docs)
        hot = r.random() < 0.6
        block = [t for t in range(len(texts)) if r.random() < (0.9 if hot else 0.5)]
        r.shuffle(block)
        work = {"texts": texts, "shards": shards, "block": block, "foreign": r.choice([0, 0, 1, 3]), "keep": r.random() < 0.75, "jwa": jwa,
                "np": r.choice([None, 1, 2, 2, 3, 4]), "gz": r.random() < 0.7, "dup": r.random() < 0.1, "place": r.choice(["in"] * 16 + ["dirs"] * 3 + ["same", "over", "twice"])}
        kind = "calm"
        runs = [gen_run(r)]
        if r.random() < 0.3:
            kind = "fault"
            runs[0]["faults"] = [disk_fault(r) for _ in range(r.choice([1, 1, 2]))]
            if r.random() < 0.15:
                runs[0]["fs_left"] = r.randrange(0, 400)
            runs.append(dict(gen_run(r)))
        return {"kind": kind, "work": work, "runs": runs}

    def valid(self, c):
        w = c["work"]
        n = len(w["texts"])
        return len(set(w["texts"])) == n and w["shards"] and w.get("place", "in") in ("in", "dirs", "same", "over", "twice") and all(b < n for b in w["block"]) and len(set(w["block"])) == len(w["block"]) and \
            all(d["t"] is None or d["t"] < n for s in w["shards"] for d in s) and (not w["jwa"] or all(d["src"] for s in w["shards"] for d in s)) and (w["np"] is None or w["np"] > 0)

    def execute(self, ctx):
        w = ctx.case["work"]
        T = w["texts"]
        h = [hashlib.md5(t.encode()).hexdigest() for t in T]
        ext = ".jsonl.gz" if w["gz"] else ".jsonl"
        shards, src = [], {}
        # where the shards are: in one directory, in many, in many with the same name, where they would be written
        place = w.get("place", "in")
        clash = place == "over" or place in ("same", "twice") and len(w["shards"]) > 1
        paths = [{"in": f"in/s{s}{ext}", "dirs": f"in/{s % 2}/s{s}{ext}", "same": f"in/{s}/s0{ext}", "over": f"out/s{s}{ext}", "twice": f"in/s{s}{ext}"}[place] for s in range(len(w["shards"]))]
        if place == "twice":
            paths[-1] = paths[0]
        for s, docs in enumerate(w["shards"]):
            if place == "twice" and s and s == len(w["shards"]) - 1:
                shards.append(shards[0])
                continue
            rows = []
            for j, d in enumerate(docs):
                row = {"id": f"{s}-{j}", "text": None if d["t"] is None else T[d["t"]], "extra": j}
                if d["src"] is not None:
                    row["source"] = d["src"]
                rows.append(row)
            shards.append(rows)
            data = gz(jl(rows)) if w["gz"] else "".join(jl(rows))
            src[ctx.path(paths[s])] = data
            ctx.write(paths[s], data)
        lines = [h[b] + "\n" for b in w["block"]] + [hashlib.md5(b"foreign%d" % k).hexdigest() + "\n" for k in range(w["foreign"])]
        if w.get("dup") and lines:
            lines.append(lines[0])
        ctx.write("block.txt", "".join(lines))
        os.makedirs(ctx.path("out"), exist_ok=True)
        argv = ["--shards"] + [ctx.path(x) for x in paths] + ["--blocklist", ctx.path("block.txt"), "--outpath", ctx.path("out")]
        if w["np"] is not None:
            argv += ["--num_processes", str(w["np"])]
        if w["keep"]:
            argv.append("--keep_first_occurrence")
        if w["jwa"]:
            argv.append("--just_write_attributes")
        main = kernel.program(REPO + "/wimbd/text_and_url_overlaps/helper_scripts/deduplicate_by_hash.py", argv, fakes.all_mods())
        for k in range(len(ctx.case["runs"])):
            p = ctx.launch(main, k)
            wd = ctx.worlds[-1]
            if crashed(wd):
                ctx.probes.add("crashed")
                continue
            if any(ctx.read(x) != (v if isinstance(v, bytes) else v.encode()) for x, v in zip(paths, [src[ctx.path(x)] for x in paths])):
                bad("shard_changed", f"run {k} ends with status {p.code} and has changed a shard that it reads")
            if clash:
                ctx.probes.add("clash")
                if p.code == 0:
                    bad("lost_documents", f"run {k} ends well although shards are written over each other ({place})")
                continue
            if not wd.fired and not wd.ctr.get("fault:disk_full") and p.code != 0:
                bad("spurious_failure", f"run {k} fails without a fault: {p.stderr[-400:]}")
            if p.code == 0:
                self.judge(ctx, w, shards, ext, p, k, h)

    def judge(self, ctx, w, shards, ext, p, k, h):
        block = {w["texts"][b] for b in w["block"]}
        kept = {}
        removed = [0] * len(shards)
        allmarks = []
        for s, rows in enumerate(shards):
            out = read_gz_rows(ctx, f"out/s{s}{ext}", k)
            if out is None:
                bad("missing_output", f"run {k}: no output for shard {s}")
            docs = [d for d in rows if d["text"] is not None]
            if w["jwa"]:
                if [o.get("id") for o in out] != [d["id"] for d in docs]:
                    bad("rows", f"run {k}: shard {s} has documents {[d['id'] for d in docs]} but its output has {[o.get('id') for o in out]}")
                marks = [o["contaminated"] for o in out]
                if [o.get("source") for o in out] != [d["source"] for d in docs]:
                    bad("rows", f"run {k}: shard {s}: sources differ")
            else:
                pos = {d["id"]: d for d in docs}
                ids = [o.get("id") for o in out]
                if any(o != pos.get(o.get("id")) for o in out) or ids != [d["id"] for d in docs if d["id"] in set(ids)]:
                    bad("rows", f"run {k}: shard {s} wrote {out}, which is not a subsequence of its documents")
                marks = [d["id"] not in set(ids) for d in docs]
            removed[s] = sum(marks)
            allmarks.append(marks)
            seen = set()
            for d, m in zip(docs, marks):
                t = d["text"]
                if t not in block:
                    if m:
                        bad("lost_document", f"run {k}: document {d['id']} ({t!r}) is not on the blocklist but is removed")
                elif not w["keep"]:
                    if not m:
                        bad("not_removed", f"run {k}: document {d['id']} ({t!r}) is on the blocklist but is kept")
                else:
                    if not m:
                        kept.setdefault(t, []).append(d["id"])
                        if t in seen:
                            bad("not_first", f"run {k}: {d['id']} is kept although an earlier copy of {t!r} in its shard is not")
                    seen.add(t)
        if w["keep"]:
            for t in {d["text"] for rows in shards for d in rows if d["text"] in block}:
                n = len(kept.get(t, []))
                if n != 1:
                    bad("copies", f"run {k}: {n} copies of {t!r} are kept ({kept.get(t, [])}), not exactly one")
                if w["np"] == 1 or len(shards) == 1:
                    first = [d["id"] for rows in shards for d in rows if d["text"] == t][0]
                    if kept[t] != [first]:
                        bad("not_first", f"run {k}: the first copy of {t!r} is {first} but {kept[t]} is kept")
        m = re.search(r"total of (\d+) documents", p.stdout)
        if not m or int(m.group(1)) != sum(removed):
            bad("report", f"run {k}: {sum(removed)} documents are removed but the report says {m and m.group(1)}")
        per = re.findall(r"(?m)^(\d+) documents matched in (.*)$", p.stdout)
        if [int(a) for a, _ in per] != removed:
            bad("report", f"run {k}: {removed} documents are removed from the shards but the report says {per}")
        src = {}
        for rows, mk in zip(shards, allmarks):
            for d, x in zip([d for d in rows if d["text"] is not None], mk):
                if x:
                    n = d.get("source", "no_source")
                    src[n] = src.get(n, 0) + 1
        said = {b: int(a) for a, b in re.findall(r"(?m)^(\d+) documents were matched from (.*)$", p.stdout)}
        if said != src:
            bad("report", f"run {k}: by source {src} documents are removed but the report says {said}")
        ctx.probes.add("keep" if w["keep"] else "remove_all")
        if w["keep"] and any(len([1 for rows in shards if any(d["text"] == t for d in rows)]) > 1 for t in block):
            ctx.probes.add("copies_in_several_shards")


# ------------------------------------------------------------------ Elasticsearch access

ES_YML = "cloud_id: sim\napi_key: key\n"


def es_docs(r, n=None, langs=True):
    n = r.choice([0, 1, 2, 3, 5, 8, 13, 20]) if n is None else n
    out = []
    for i in range(n):
        d = {"text": text(r)}
        if r.random() < 0.9:
            d["date"] = r.choice([1, 1, 1, 2, 2, 3, 4, 5, 6])
        if r.random() < 0.7:
            d["subset"] = r.choice(["en", "en", "de"])
        if r.random() < 0.5:
            d["lang"] = r.choice(["x", "y"])
        out.append(d)
    return out


def es_load(work):
    c = fakes.Cluster()
    for name, ix in work["indices"].items():
        c.create_index(name, ix["shards"], ix["replicas"])
        for i, d in enumerate(ix["docs"]):
            c.put(name, f"{name}-{i}", dict(d))
    return c


def es_fault(r, ops, partial=True):
    op = r.choice(ops)
    n = r.choice([0, 0, 1, 1, 2, 3, 5])
    k = r.choice(["timeout", "timeouts", "conn", "http"] + (["partial", "partial", "timed_out"] if partial else []))
    if op == "msearch" and k in ("http", "conn") and r.random() < 0.6:
        return [{"op": "es:msearch", "nth": n, "action": "item", "arg": 429, "every": r.choice([1, 2, 3])}]
    if k == "timeouts":
        a = r.randrange(2)
        return [{"op": "es:" + op, "nth": n + j, "action": "timeout", "arg": a} for j in range(r.choice([2, 4]))]
    f = {"op": "es:" + op, "nth": n, "action": k, "arg": r.randrange(5)}
    if k == "http":
        f["arg"] = r.choice([429, 500, 503])
    if k in ("partial", "timed_out"):
        if op in ("pit", "closepit", "cat", "termvectors"):
            f = {"op": "es:" + op, "nth": 0, "action": "http", "arg": 503}
        else:
            f["every"] = r.choice([1, 2, 3])
    return [f]


def matches(phrase, d):
    a, b = fakes.tokens(phrase), fakes.tokens(d["text"])
    return bool(a) and any(b[i:i + len(a)] == a for i in range(len(b)))


class Es(Prop):
    real = ["wimbd/es/__init__.py"]
    stub = ["elasticsearch (an in-memory cluster: shards, replicas that order ties differently, points in time, partial results, lost requests, client retries)"]

    def api(self, ctx, k, cluster, fn):
        """runs fn(es module) as a program; returns its process"""
        ctx.write("es.yml", ES_YML)

        def body():
            import wimbd.es as wes
            fn(wes, wes.es_init(ctx.path("es.yml")))
        return ctx.launch(kernel.call(body, fakes.all_mods()), k, setup=lambda w: w.svc.update(es=cluster))


def es_hit(q, d, how):
    if how == "regexp":
        return any(re.fullmatch(q, t, re.I) for t in fakes.tokens(d["text"]))
    return fakes.sloppy(fakes.tokens(d["text"]), fakes.tokens(q), how)


def regexps(r, ps):
    out = [r.choice(["{}", "{}.*", ".*{}", "({}|zzz)", "{}?"]).format(p.split(" ")[0]) for p in ps]
    return [x.upper() if r.random() < 0.3 else x for x in out]


def phrases(r, docs, n):
    """phrases of which most occur"""
    out = []
    for _ in range(n):
        ts = [t for t in (fakes.tokens(d["text"]) for d in docs) if t]
        if ts and r.random() < 0.8:
            t = r.choice(ts)
            a = r.randrange(len(t))
            out.append(" ".join(t[a:a + r.choice([1, 1, 1, 2])]))
        else:
            out.append(text(r, r.choice([1, 1, 2])))
    return out


class EsHits(Es):
    id = "P02"
    budget = (16000, 800000)
    rule = "one search for all hits over a generated index, page size and phrases, with faults of the cluster, documents added between pages and slow consumers."

    def gen(self, r, i):
        ix = r.choice(["idx", "idx", "c4"])
        docs = es_docs(r)
        work = {"indices": {ix: {"shards": r.choice([1, 2, 3]), "replicas": r.choice([0, 1]), "docs": docs}}, "page": r.choice([1, 1, 2, 3, 5, 10, 100]),
                "phrases": phrases(r, docs, r.choice([1, 1, 2, 3])), "all": r.random() < 0.3, "allhits": r.random() < 0.8,
                "filter": r.choice([None, None, [{"lang": "x"}]]), "sort": r.choice(["date", "date", "date", "subset"]),
                "add": es_docs(r, r.choice([0, 0, 1, 3])), "slow": r.choice([0, 0, 0, 1, 20, 45, 90]), "how": r.choice([0, 0, 0, 0, 1, 2, "regexp"]), "omit": r.random() < 0.5}
        if work["how"] == "regexp":
            work["phrases"] = regexps(r, work["phrases"])
        run = gen_run(r, threads=False)
        kind = "calm"
        if r.random() < 0.35:
            kind = "fault"
            run["faults"] = es_fault(r, ["search", "search", "search", "pit", "closepit"])
        return {"kind": kind, "work": work, "runs": [run]}

    def valid(self, c):
        w = c["work"]
        return w["phrases"] and w["page"] > 0 and all(ix["shards"] > 0 for ix in w["indices"].values()) and all("text" in d for ix in w["indices"].values() for d in ix["docs"]) and \
            all("text" in d for d in w["add"])

    def execute(self, ctx):
        w = ctx.case["work"]
        (name, ix), = w["indices"].items()
        c = es_load(w)
        n = [0]

        def on_page():
            n[0] += 1
            if n[0] == 2:
                for i, d in enumerate(w["add"]):
                    c.put(name, f"new-{i}", dict(d))
            kernel.WORLD.now += w["slow"] if n[0] > 1 else 0
        c.on_page = on_page
        got = []

        def fn(wes, es):
            opts = {"all_phrases": w["all"], "num_documents": w["page"], "is_regexp": w["how"] == "regexp", "slop": w["how"] if w["how"] in (1, 2) else 0, "return_all_hits": w["allhits"], "sort_field": w["sort"],
                    "subset_filter": copy.deepcopy(w["filter"]), "es": es}
            if w["omit"]:
                opts = {k: v for k, v in opts.items() if k == "es" or v != {"all_phrases": False, "num_documents": 10, "is_regexp": False, "slop": 0, "return_all_hits": False, "sort_field": "date", "subset_filter": None}[k]}
            for h in wes.get_documents_containing_phrases(name, w["phrases"][0] if w["omit"] and len(w["phrases"]) == 1 else list(w["phrases"]), **opts):
                got.append((h["_id"], h["_source"]))
                if len(got) > 10 * (len(ix["docs"]) + len(w["add"])) + 10:
                    return
        p = self.api(ctx, 0, c, fn)
        wd = ctx.worlds[-1]

        def want(d):
            if not (all if w["all"] else any)(es_hit(x, d, w["how"]) for x in w["phrases"]):
                return False
            fs = list(w["filter"] or []) + ([{"subset": "en"}] if name == "c4" else [])
            return all(d.get(k) == v for f in fs for k, v in f.items())
        exp = {f"{name}-{i}" for i, d in enumerate(ix["docs"]) if want(d)}
        extra = {f"new-{i}" for i, d in enumerate(w["add"]) if want(d)}
        if len({g[0] for g in got}) != len(got):
            bad("twice", f"some hits are reported twice: {sorted(g[0] for g in got)}")
        if not {g[0] for g in got} <= exp | extra:
            bad("not_a_hit", f"hits {sorted({g[0] for g in got} - exp)} do not match")
        for g in got:
            if g[1] != c.docs(name)[g[0]]:
                bad("content", f"hit {g[0]} has content {g[1]}")
        if p.code == 0:
            if not w["allhits"]:
                if len(got) != min(w["page"], len(exp)):
                    bad("missing_hits", f"{len(got)} hits are reported, of {len(exp)} there are and {w['page']} asked for")
            elif not exp <= {g[0] for g in got}:
                bad("missing_hits", f"{len(got)} of {len(exp)} hits are reported without an error; missing: {sorted(exp - {g[0] for g in got})}")
            if any(x["until"] >= wd.now for x in c.pits.values()) and not wd.fired:
                bad("leaked", "the search leaves its point in time open")
        elif not wd.fired and w["slow"] < 60:
            bad("spurious_failure", f"the search fails without a fault: {p.stderr[-500:]}")
        if len(exp) > w["page"]:
            ctx.probes.add("several_pages")
        if p.code != 0:
            ctx.probes.add("error_raised")

    def nontrivial(self, case, ctx):
        return "several_pages" in ctx.probes
    nontrivial_rule = ", or the hits span several pages"


class EsCounts(Es):
    id = "P03"
    budget = (16000, 800000)
    rule = "a sequence of counting calls that share filter objects, over generated indices, with faults of the cluster."

    def gen(self, r, i):
        names = r.sample(["idx", "c4", "other"], r.choice([1, 2, 2])) + ([".hidden"] if r.random() < 0.2 else [])
        work = {"indices": {n: {"shards": r.choice([1, 2, 3]), "replicas": r.choice([0, 1]), "docs": es_docs(r)} for n in names}, "calls": []}
        work["filters"] = [[{"lang": "x"}], [{"subset": "de"}, {"lang": "y"}]]
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            n = r.choice([0, 1, 1, 2, 3, 5, 7])
            f = r.choice(["count", "count", "each", "each", "indices"])
            work["calls"].append({"f": f, "ix": r.choice(names), "ph": [],
                                  "all": r.random() < 0.4, "batch": r.choice([1, 2, 3, 500]), "filter": r.choice([None, 0, 0, 1])})
            x = work["calls"][-1]
            x["ph"] = [phrases(r, work["indices"][x["ix"]]["docs"], r.choice([1, 2])) for _ in range(max(1, n))]
            x["how"] = r.choice([0, 0, 0, 1, 2, "regexp", "regexp"]) if f == "count" else 0
            x["map"] = r.random() < 0.5
            if x["how"] == "regexp":
                x["ph"] = [regexps(r, x["ph"][0])]
        run = gen_run(r, threads=False)
        kind = "calm"
        if r.random() < 0.4:
            kind = "fault"
            run["faults"] = es_fault(r, ["count", "msearch", "msearch", "count", "cat"])
        return {"kind": kind, "work": work, "runs": [run]}

    def valid(self, c):
        w = c["work"]
        return w["calls"] and all(x["ph"] and all(p and all(fakes.tokens(q) for q in p) for p in x["ph"]) and x["batch"] > 0 and x["ix"] in w["indices"] and
                                  (x["filter"] is None or x["filter"] < len(w["filters"])) for x in w["calls"]) and \
            all(ix["shards"] > 0 and all("text" in d for d in ix["docs"]) for ix in w["indices"].values()) and all(f and all(f) for f in w["filters"])

    def execute(self, ctx):
        w = ctx.case["work"]
        c = es_load(w)
        out = []
        filters = copy.deepcopy(w["filters"])

        def fn(wes, es):
            for x in w["calls"]:
                f = None if x["filter"] is None else filters[x["filter"]]
                before = len(kernel.WORLD.fired)
                try:
                    if x["f"] == "indices":
                        r = wes.get_indices(return_mapping=x["map"], es=es)
                        r = {a: {b: sorted(c) if isinstance(c, list) else c for b, c in d.items()} for a, d in r.items()}
                    elif x["f"] == "count":
                        o = {"is_regexp": True} if x["how"] == "regexp" else {"slop": x["how"]} if x["how"] else {}
                        if not x["all"] and x["map"]:
                            o = {**o, "subset_filter": f, "es": es} if f else {**o, "es": es}
                        else:
                            o = {**o, "all_phrases": x["all"], "subset_filter": f, "es": es}
                        r = wes.count_documents_containing_phrases(x["ix"], x["ph"][0][0] if len(x["ph"][0]) == 1 and x["map"] else list(x["ph"][0]), **o)
                    elif x["all"]:
                        r = wes.count_documents_for_each_phrase(x["ix"], [list(p) for p in x["ph"]], batch_size=x["batch"], all_phrases=True, subset_filter=f, es=es)
                    else:
                        r = wes.count_documents_for_each_phrase(x["ix"], x["ph"][0][0] if len(x["ph"]) == 1 and x["map"] else [p[0] for p in x["ph"]], es=es,
                                                                **({"batch_size": x["batch"], "subset_filter": f} if x["batch"] != 500 or f else {}))
                except Exception as e:  # noqa
                    kernel.WORLD.guard(e)
                    out.append(("error", e, len(kernel.WORLD.fired) > before))
                else:
                    out.append(("ok", r, len(kernel.WORLD.fired) > before))
        p = self.api(ctx, 0, c, fn)
        if p.code != 0:
            bad("failure", p.stderr[-400:])
        for j, (x, o) in enumerate(zip(w["calls"], out)):
            if o[0] == "error":
                ctx.probes.add("error_raised")
                if not o[2]:
                    bad("spurious_failure", f"call {j} ({x}) fails without a fault: {o[1]!r}")
                continue
            fs = list(w["filters"][x["filter"]] if x["filter"] is not None else []) + ([{"subset": "en"}] if x["ix"] == "c4" else [])

            def count(ps, every):
                return sum((all if every else any)(es_hit(q, d, x["how"]) for q in ps) and all(d.get(k) == v for f in fs for k, v in f.items()) for d in w["indices"][x["ix"]]["docs"])
            if x["f"] == "indices":
                exp = {n: {"docs.count": str(len(ix["docs"])), **({"properties": sorted({f for d in ix["docs"] for f in d})} if x["map"] else {})} for n, ix in w["indices"].items() if not n.startswith(".")}
                if o[1] != exp:
                    bad("indices", f"call {j}: get_indices returns {o[1]}, expected {exp}")
                ctx.probes.add("indices")
                continue
            if x["f"] == "count":
                exp = count(x["ph"][0], x["all"])
            else:
                exp = [count(q if x["all"] else q[:1], True) for q in x["ph"]]
            if o[1] != exp:
                bad("wrong_count", f"call {j} ({x['f']} on {x['ix']}, {x['ph']}, all={x['all']}, filter={x['filter'] is not None and w['filters'][x['filter']]}) returns {o[1]} but {exp} documents match" +
                    (f" (faults: {ctx.worlds[-1].fired})" if o[2] else ""))
            ctx.probes.add(x["f"])


class EsUnigrams(Es):
    id = "P04"
    budget = (12000, 500000)
    rule = "one call of count_total_occurrences_of_unigrams over a generated index with several shards and replicas, with faults of the cluster."

    def gen(self, r, i):
        work = {"filter": r.choice([None] * 9 + [[{"lang": "x"}]]), "indices": {"idx": {"shards": r.choice([1, 2, 3, 5]), "replicas": r.choice([0, 0, 1, 2]), "docs": es_docs(r)}},
                "terms": r.sample([x for x in WORDS], r.choice([1, 1, 2, 3])), "single": r.random() < 0.3}
        run = gen_run(r, threads=False)
        kind = "calm"
        if r.random() < 0.4:
            kind = "fault"
            run["faults"] = es_fault(r, ["search", "search", "termvectors", "cat"])
        return {"kind": kind, "work": work, "runs": [run]}

    def valid(self, c):
        w = c["work"]
        return w["terms"] and all(t in WORDS for t in w["terms"]) and all(ix["shards"] > 0 and all("text" in d for d in ix["docs"]) for ix in w["indices"].values()) and "idx" in w["indices"]

    def execute(self, ctx):
        w = ctx.case["work"]
        c = es_load(w)
        out = []
        terms = w["terms"][:1] if w["single"] else w["terms"]

        def fn(wes, es):
            out.append(wes.count_total_occurrences_of_unigrams("idx", terms[0] if w["single"] else list(terms), es=es, **({"subset_filter": copy.deepcopy(w["filter"])} if w["filter"] else {})))
        p = self.api(ctx, 0, c, fn)
        wd = ctx.worlds[-1]
        exp = {t: sum(fakes.tokens(d["text"]).count(t) for d in w["indices"]["idx"]["docs"] if all(d.get(a) == b for f in w["filter"] or [] for a, b in f.items())) for t in terms}
        if p.code != 0 and not wd.fired and w["filter"] and "BadRequestError" in p.stderr:
            bad("filter_rejected", f"counting unigrams with a subset_filter is an error: {p.stderr[-200:]}")
        if p.code == 0:
            if out[0] != exp:
                bad("wrong_count", f"reports {out[0]}, but the terms occur {exp}" + (f" (faults: {wd.fired})" if wd.fired else ""))
        elif not wd.fired:
            bad("spurious_failure", f"fails without a fault: {p.stderr[-400:]}")
        else:
            ctx.probes.add("error_raised")
        if w["indices"]["idx"]["shards"] > 1:
            ctx.probes.add("several_shards")


class EsIndex(Es):
    id = "P05"
    budget = (5000, 250000)
    rule = "one indexing job over generated files, repeated after every failure or crash until it ends well, with faults of the cluster, the disk and crashes."
    real = ["wimbd/indexing/index_json_files.py", "wimbd/es/__init__.py", "gzip, json, argparse"]
    stub = Es.stub + ["elasticsearch.helpers.parallel_bulk (same chunking, ordering and error rules on simulated threads)", "h5py", "tqdm"]

    def gen(self, r, i):
        files = []
        for f in range(r.choice([1, 1, 2, 3])):
            docs = []
            for d in range(r.choice([0, 1, 2, 4, 7, 12])):
                t = r.choices([text(r, r.choice([1, 2, 3])), "", None], [20, 2, 2])[0]
                docs.append({"t": t, "x": r.randrange(9)})
            files.append(docs)
        work = {"files": files, "bulk": r.choice([1, 2, 3, 5, 500]), "idfield": r.random() < 0.5, "save": r.random() < 0.5, "skipf": r.random() < 0.3, "field": r.choice(["text", "body"]),
                "max": r.choice([None, None, 3]), "exists": r.random() < 0.3, "shards": r.choice([1, 2, 4]), "skip": 0, "omit": r.random() < 0.5}
        if len(files) == 1 and r.random() < 0.1:
            work["skip"] = r.choice([1, 2])
        kind = "calm"
        runs = [gen_run(r)]
        if r.random() < 0.6:
            kind = "fault"
            runs = []
            for _ in range(r.choice([1, 1, 2])):
                x = gen_run(r)
                q = r.random()
                if q < 0.5:
                    x["faults"] = es_fault(r, ["bulk", "bulk", "bulk", "cat", "create_index"], partial=False)
                    if r.random() < 0.3:
                        x["faults"] = [{"op": "es:bulk", "nth": r.choice([0, 1, 2, 3]), "action": "item", "arg": r.choice([429, 400, 503]), "every": r.choice([1, 2, 3])}]
                elif q < 0.7:
                    x["faults"] = [{"op": "es:bulk", "nth": r.choice([0, 0, 1, 2, 4]), "action": "crash"}]
                else:
                    x["faults"] = [disk_fault(r)]
                runs.append(x)
            runs.append(gen_run(r))
        return {"kind": kind, "work": work, "runs": runs}

    def valid(self, c):
        w = c["work"]
        return w["files"] and w["bulk"] > 0 and w["shards"] > 0 and (w["skip"] == 0 or len(w["files"]) == 1) and not (c["runs"] and c["runs"][-1].get("faults") and c["kind"] == "fault" and False)

    def execute(self, ctx):
        w = ctx.case["work"]
        c = fakes.Cluster()
        if w["exists"]:
            c.create_index("myindex", 2)
        ctx.write("es.yml", ES_YML)
        exp, ids, n = {}, [], 0
        for f, docs in enumerate(w["files"]):
            rows = []
            k = 0
            for j, d in enumerate(docs):
                row = {w["field"]: d["t"], "x": d["x"], "y": "drop"}
                i = f"f{f}.jsonl.gz-{j}"
                if w["idfield"]:
                    i = f"doc-{f}-{j}"
                    row["doc_id"] = i
                rows.append(row)
                if d["t"]:
                    k += 1
                    if k <= w["skip"]:
                        continue
                    src = {"x": d["x"], "text": d["t"] if w["max"] is None else d["t"][:w["max"]]}
                    if not w["skipf"]:
                        src["y"] = "drop"
                    exp[i] = src
                    ids.append(i)
            ctx.write(f"f{f}.jsonl.gz", gz(jl(rows)))
        ctx.write("names.txt", "".join(f"f{f}.jsonl.gz\n" for f in range(len(w["files"]))))
        argv = ["--index", "MyIndex", "--filenames-path", "names.txt", "--es-config", ctx.path("es.yml")]
        for o, v, d in (("--bulk-docs", w["bulk"], 500), ("--text-field", w["field"], "text"), ("--num-shards", w["shards"], 4)):
            if v != d or not w["omit"]:
                argv += [o, str(v)]
        if w["idfield"]:
            argv += ["--id-field", "doc_id"]
        if w["skipf"]:
            argv += ["--skip-fields", "y"]
        if w["max"] is not None:
            argv += ["--max-doc-size", str(w["max"])]
        if w["skip"]:
            argv += ["--skip", str(w["skip"])]
        if w["save"]:
            argv += ["--save-ids-file", "ids.h5"]
        main = kernel.program(REPO + "/wimbd/indexing/index_json_files.py", argv, fakes.all_mods())
        for k in range(len(ctx.case["runs"])):
            p = ctx.launch(main, k, setup=lambda wd: wd.svc.update(es=c))
            wd = ctx.worlds[-1]
            have = c.docs("myindex") if "myindex" in c.indices else {}
            for i, d in have.items():
                if exp.get(i) != d:
                    bad("wrong_document", f"run {k}: the index holds {i}: {d}, but the input has {exp.get(i)}")
            if crashed(wd):
                ctx.probes.add("crashed")
                continue
            if p.code != 0:
                if not wd.fired:
                    bad("spurious_failure", f"run {k} fails without a fault: {p.stderr[-500:]}")
                ctx.probes.add("error_raised")
                continue
            if not w["exists"] and len(c.indices["myindex"]["shards"]) != w["shards"]:
                bad("index_settings", f"run {k}: the index was made with {len(c.indices['myindex']['shards'])} shards, not {w['shards']}")
            if set(have) != set(exp):
                bad("missing_documents", f"run {k} exits 0 but {sorted(set(exp) - set(have))} are not indexed" + (f" (faults: {wd.fired})" if wd.fired else ""))
            if w["save"]:
                import pickle
                saved = [x.decode() for x in pickle.loads(ctx.read("ids.h5"))["ids"].arr] if hasattr(pickle.loads(ctx.read("ids.h5"))["ids"], "arr") else [x.decode() for x in pickle.loads(ctx.read("ids.h5"))["ids"]]
                if sorted(saved) != sorted(ids):
                    bad("saved_ids", f"run {k} saves the ids {saved}, not {ids}")
            ctx.probes.add("complete")
            if k:
                ctx.probes.add("repeated_until_complete")


# ------------------------------------------------------------------ saving a Hugging Face dataset

def until_ok(prop, ctx, main, setup=None, after=None):
    """runs main once per run of the case; yields (k, process, world) of the runs that exit 0; common rules for the others"""
    for k in range(len(ctx.case["runs"])):
        p = ctx.launch(main, k, setup=setup)
        wd = ctx.worlds[-1]
        if after:
            after(k, p, wd)
        if crashed(wd):
            ctx.probes.add("crashed")
            continue
        if p.code != 0:
            if not wd.fired and not wd.ctr.get("fault:disk_full"):
                bad("spurious_failure", f"run {k} fails without a fault: {p.stderr[-500:]}")
            ctx.probes.add("error_raised")
            continue
        ctx.probes.add("complete")
        if k:
            ctx.probes.add("complete_after_failure")
        yield k, p, wd


class HfSave(Prop):
    id = "P06"
    budget = (6000, 250000)
    rule = "one download of a generated streamed dataset, repeated after every failure or crash until it ends well; errors of the stream and the disk, crashes, all schedules of the writer threads."
    real = ["wimbd/indexing/huggingface.py", "gzip, json, argparse"]
    stub = ["datasets (streams of examples that can break off)", "concurrent.futures on simulated threads"]

    def gen(self, r, i):
        work = {"splits": {s: r.choice([0, 1, 2, 3, 5, 8, 13, 21]) for s in r.sample(["train", "test", "train_x", "validation"], r.choice([1, 1, 2]))}, "batch": r.choice([2, 2, 3, 4, 5, 10, 100]),
                "workers": r.choice([1, 2, 3, 5]), "field": r.choice(["text", "content"]), "omit": r.random() < 0.5}
        kind, runs = "calm", [gen_run(r)]
        if r.random() < 0.65:
            kind, runs = "fault", []
            for _ in range(r.choice([1, 1, 2, 3])):
                x = gen_run(r)
                q = r.random()
                if q < 0.3:
                    x["faults"] = [{"op": "stream", "nth": r.randrange(0, 20), "action": r.choice(["err", "err", "crash"])}]
                elif q < 0.4:
                    x["fs_left"] = r.randrange(0, 900)
                else:
                    x["faults"] = [disk_fault(r)]
                runs.append(x)
            runs.append(gen_run(r))
        return {"kind": kind, "work": work, "runs": runs}

    def valid(self, c):
        w = c["work"]
        return w["batch"] > 1 and w["workers"] > 0 and w["splits"]

    def execute(self, ctx):
        w = ctx.case["work"]
        data = {s: [{w["field"]: f"{s} {i} " + "word " * (i * 7 % 5), "n": i, "q": "ü\n\"" if i % 3 == 0 else None} for i in range(n)] for s, n in w["splits"].items()}
        argv = ["--dataset", "me/ds", "--output-dir", ctx.path("out")]
        for o, v, d in (("--batch-size", w["batch"], 100), ("--num-workers", w["workers"], 5), ("--text-field", w["field"], "text")):
            if v != d or not w["omit"]:
                argv += [o, str(v)]
        main = kernel.program(REPO + "/wimbd/indexing/huggingface.py", argv, fakes.all_mods())
        for k, p, wd in until_ok(self, ctx, main, setup=lambda wd: wd.svc.update(datasets={"me/ds": copy.deepcopy(data)})):
            for s, rows in data.items():
                exp = []
                for row in rows:
                    row = dict(row)
                    row["text"] = row.pop(w["field"])
                    exp.append(row)
                pat = re.compile(re.escape(s) + r"_(\d+)\.jsonl\.gz$")
                names = sorted((f for f in ctx.files() if pat.match(os.path.basename(f)) and f.startswith("out/")), key=lambda f: int(pat.match(os.path.basename(f)).group(1)))
                got = [x for f in names for x in read_gz_rows(ctx, f, k)]
                if got != exp:
                    ids = [x.get("n") for x in got]
                    if sorted(ids) != list(range(len(exp))):
                        bad("examples", f"run {k} exits 0 but split {s} of {len(exp)} examples is saved as {ids} in {names}")
                    bad("content", f"run {k}: split {s} is saved in another order or with other content: {ids}")
                if any(len(read_gz_rows(ctx, f, k)) > w["batch"] for f in names):
                    bad("batch_size", f"run {k}: a file holds more than {w['batch']} examples")


# ------------------------------------------------------------------ The Stack

STACK = "https://huggingface.co/datasets/bigcode/the-stack/resolve/"


class StackUrls(Prop):
    id = "P07"
    budget = (6000, 250000)
    rule = "one listing of the urls of a generated set of languages, repeated after every failure, interrupt or crash until it ends undisturbed."
    real = ["preparation/stack/get_urls.py", "preparation/stack/auth_utils.py"]
    stub = ["fsspec (an in-memory web server that can fail)", "tqdm"]

    def gen(self, r, i):
        work = {"langs": [[n, r.choice([1, 1, 2, 3, 4])] for n in r.sample(["Ada", "C", "C#", "Common Lisp", "Go", "HTML", "Rust", "Visual Basic"], r.choice([1, 2, 3, 5]))], "version": r.choice(["v1.1", "v1.2"])}
        kind, runs = "calm", [gen_run(r, threads=False)]
        if r.random() < 0.8:
            kind, runs = "fault", []
            for _ in range(r.choice([1, 1, 2, 3])):
                x = gen_run(r, threads=False)
                q = r.random()
                if q < 0.2:
                    x["faults"] = [{"op": "step", "nth": r.randrange(0, r.choice([40, 150, 400])), "action": r.choice(["interrupt", "interrupt", "interrupt", "crash"])}]
                elif q < 0.35:
                    x["faults"] = [{"op": "http:head", "nth": r.randrange(0, 14), "action": r.choice(["err", "crash", "interrupt", "interrupt"])}]
                elif q < 0.4:
                    x["faults"] = [{"op": "http:get", "nth": 0, "action": r.choice(["err", "crash"])}]
                elif q < 0.5:
                    x["fs_left"] = r.randrange(0, 900)
                else:
                    x["faults"] = [disk_fault(r)]
                runs.append(x)
            runs.append(gen_run(r, threads=False))
        return {"kind": kind, "work": work, "runs": runs}

    def valid(self, c):
        w = c["work"]
        return w["langs"] and all(len(x) == 2 and x[0] and x[1] > 0 for x in w["langs"]) and len({x[0] for x in w["langs"]}) == len(w["langs"]) and w["version"] in ("v1.1", "v1.2")

    def execute(self, ctx):
        w = ctx.case["work"]
        base = STACK + w["version"]
        web, exp = {}, []
        for n, k in w["langs"]:
            slug = n.lower().replace(" ", "-").replace("#", "-sharp")
            for i in range(k):
                u = f"{base}/data/{slug}/train-{i:05d}-of-{k:05d}.parquet"
                web[u] = b""
                exp.append(u)
        web[base + "/programming-languages.json"] = json.dumps({n: {} for n, _ in w["langs"]}).encode()
        main = kernel.program(REPO + "/preparation/stack/get_urls.py", ["--output-file", ctx.path("urls.txt")] + (["--version", w["version"]] if w["version"] != "v1.1" or len(w["langs"]) % 2 else []), fakes.all_mods(), env={"HF_TOKEN": "t"})
        for k, p, wd in until_ok(self, ctx, main, setup=lambda wd: wd.svc.update(web=web)):
            if any(f[2] == "interrupt" for f in wd.fired):
                ctx.probes.add("interrupted")
                continue
            got = (ctx.read("urls.txt") or b"").decode().splitlines()
            if got != exp:
                bad("urls", f"run {k} exits 0 but the list has {len(got)} of {len(exp)} urls; missing {sorted(set(exp) - set(got))[:3]}, wrong {sorted(set(got) - set(exp))[:3]}")


class StackDownload(Prop):
    id = "P08"
    budget = (6000, 250000)
    rule = "the download of one file of The Stack, repeated after every failure or crash until it ends well."
    real = ["preparation/stack/download_url.py", "preparation/stack/auth_utils.py", "gzip, json"]
    stub = ["fsspec (an in-memory web server that can fail)", "pandas (a table of rows with the methods used here)"]

    def gen(self, r, i):
        work = {"rows": r.choice([1, 2, 3, 10, 400]), "lang": r.choice(["c", "common-lisp"]), "n": r.randrange(3), "empty": r.random() < 0.2, "same": r.choice([0, 0, 1, 2, 3]), "whole": r.random() < 0.5}
        kind, runs = "calm", [gen_run(r, threads=False)]
        if r.random() < 0.85:
            kind, runs = "fault", []
            for _ in range(r.choice([1, 1, 2])):
                x = gen_run(r, threads=False)
                q = r.random()
                if q < 0.15:
                    x["faults"] = [{"op": "http:get", "nth": 0, "action": r.choice(["err", "crash"])}]
                elif q < 0.3:
                    x["fs_left"] = r.randrange(0, 300)
                else:
                    x["faults"] = [disk_fault(r, reads=False)]
                runs.append(x)
            runs.append(gen_run(r, threads=False))
        return {"kind": kind, "work": work, "runs": runs}

    def valid(self, c):
        return c["work"]["rows"] > 0 and c["work"]["lang"]

    def execute(self, ctx):
        w = ctx.case["work"]
        url = f"{STACK}v1.2/data/{w['lang']}/train-{w['n']:05d}-of-00003.parquet"
        # the same file may occur several times (in several repositories): every occurrence is a row
        same = w.get("same") or 10 ** 9
        num = [i % same if w.get("whole") else i for i in range(w["rows"])]
        rows = [{"hexsha": f"h{i % same}", "content": f"line {mix(i) % 9999}\n" * (i % 4), "lang": "Common Lisp", "size": i, "ext": "lisp"} for i in num]
        web = {url: json.dumps(rows).encode()}
        rel = f"out/{w['lang']}/train-{w['n']:05d}-of-00003.jsonl.gz"
        if w["empty"]:
            ctx.write(rel, b"")
        main = kernel.program(REPO + "/preparation/stack/download_url.py", [url, ctx.path("out")], fakes.all_mods(), env={"HF_TOKEN": "t"})
        for k, p, wd in until_ok(self, ctx, main, setup=lambda wd: wd.svc.update(web=web)):
            got = read_gz_rows(ctx, rel, k)
            if got is None:
                bad("rows", f"run {k} exits 0 but wrote no file")
            key = [{x: y for x, y in g.items() if x != "added"} for g in got]
            if key != [{"id": x["hexsha"], "text": x["content"], "lang": "common-lisp", "metadata": {"size": x["size"], "ext": "lisp"}, "timestamp": "2023-03-16T00:00:00", "source": "stack-v1.2"} for x in rows]:
                bad("rows", f"run {k} exits 0 but the file holds {len(got)} of {len(rows)} rows, or other rows")
            if any(not str(g.get("added", "")).startswith("20") for g in got):
                bad("rows", f"run {k}: rows without the time they were added")


# ------------------------------------------------------------------ mC4

class Mc4Combine(Prop):
    id = "P09"
    budget = (6000, 250000)
    rule = "one consolidation of generated input objects, repeated after every failure or crash until it ends well."
    real = ["preparation/mc4/combine_adjacent_files.py"]
    stub = ["google.cloud.storage (in-memory buckets; an object appears whole or not at all)", "more_itertools.chunked", "tqdm"]

    def gen(self, r, i):
        work = {"prefixes": {p: sorted(r.sample(range(14), r.choice([1, 2, 3, 4, 5, 8, 9, 12]))) for p in r.sample(["c4-en", "c4-de", "c4-e", "c4-en-validation"], r.choice([1, 2, 3]))},
                "out": r.choice(["", "o", "o/"]), "other": r.random() < 0.5, "folders": r.choice([0, 0, 2, 3])}
        kind, runs = "calm", [gen_run(r, threads=False)]
        if r.random() < 0.7:
            kind, runs = "fault", []
            for _ in range(r.choice([1, 1, 2, 3])):
                x = gen_run(r, threads=False)
                x["faults"] = [r.choice([{"op": "gs:put", "nth": r.randrange(6), "action": r.choice(["err", "crash", "after"])}, {"op": "gs:list", "nth": r.randrange(2), "action": r.choice(["err", "crash"])},
                                         {"op": "gs:putdone", "nth": r.randrange(6), "action": r.choice(["err", "crash"])}, {"op": "step", "nth": r.randrange(1, 200), "action": "crash"}])]
                runs.append(x)
            runs.append(gen_run(r, threads=False))
        return {"kind": kind, "work": work, "runs": runs}

    def valid(self, c):
        return all(len(set(v)) == len(v) for v in c["work"]["prefixes"].values())

    def execute(self, ctx):
        w = ctx.case["work"]
        folder = lambda n: "zyx"[n * 7 % 11 % w["folders"]] + "/" if w.get("folders") else ""  # noqa
        inp = {f"in/{folder(n)}{p}.{n:05d}.json.gz": f"<{p}.{n}>".encode() for p, ns in w["prefixes"].items() for n in ns}
        gs = {"a": dict(inp), "b": {}}
        if w["other"]:
            gs["a"]["in/README.md"] = b"readme"
            gs["a"]["other/c4-en.00001.json.gz"] = b"<other.1>"
            gs["b"]["unrelated"] = b"u"
            if w["out"]:
                for p, ns in w["prefixes"].items():
                    for j in range(0, len(ns), 4):
                        gs["b"][f"elsewhere/{p}." + "-".join(f"{n:05}" for n in ns[j:j + 4]) + ".json.gz"] = b"e"
        keep = dict(gs["b"])
        main = kernel.program(REPO + "/preparation/mc4/combine_adjacent_files.py", ["gs://a/in/", "gs://b/" + w["out"]], fakes.all_mods())
        pre = w["out"] + ("/" if w["out"] and not w["out"].endswith("/") else "")
        for k, p, wd in until_ok(self, ctx, main, setup=lambda wd: wd.svc.update(gs=gs)):
            got = b"".join(gs["b"][n] for n in sorted(gs["b"]) if n not in keep)
            parts = sorted(re.findall(rb"<[^>]*>", got))
            if parts != sorted(inp.values()):
                bad("objects", f"run {k} exits 0 but of {sorted(inp.values())} the output holds {parts}")
            for q in w["prefixes"]:
                ns = [int(x) for n in sorted(gs["b"]) if n not in keep for x in re.findall(b"<%s\\.(\\d+)>" % q.encode(), gs["b"][n])]
                if ns != sorted(ns):
                    bad("objects", f"run {k}: the output objects of {q} hold its inputs in the order {ns}")
            for n, v in gs["b"].items():
                if n in keep:
                    continue
                if not n.startswith(pre) or b"".join(re.findall(rb"<[^>]*>", v)) != v or len(re.findall(rb"<", v)) > 4:
                    bad("objects", f"run {k}: output object {n} holds {v}")
                ns = re.findall(rb"<([^.>]*)\.(\d+)>", v)
                if len({a for a, _ in ns}) > 1 or [int(b) for _, b in ns] != sorted(int(b) for _, b in ns):
                    bad("objects", f"run {k}: output object {n} mixes {ns}")
            if {a: b for a, b in gs["a"].items() if a in inp} != inp:
                bad("input_changed", f"run {k} changed the input")


class Mc4Convert(Prop):
    id = "P10"
    budget = (4000, 150000)
    rule = "one conversion of generated TFRecord objects, repeated after every failure or crash until it ends well, with several objects in flight."
    real = ["preparation/mc4/mc4.py", "gzip, json, tempfile"]
    stub = ["google.cloud.storage (in-memory buckets; an object appears whole or not at all)", "tensorflow records (JSON lines)", "bettermap (simulated threads)", "ftfy (identity)", "tqdm"]

    def gen(self, r, i):
        work = {"files": [[r.choice(["en", "de", "en-validation"]), n, r.choice([0, 1, 2, 3, 7])] for n in range(r.choice([1, 2, 3, 5]))], "out": r.choice(["", "o", "o/"]), "folders": r.choice([0, 0, 2])}
        kind, runs = "calm", [gen_run(r)]
        if r.random() < 0.75:
            kind, runs = "fault", []
            for _ in range(r.choice([1, 1, 2])):
                x = gen_run(r)
                q = r.random()
                if q < 0.5:
                    x["faults"] = [r.choice([{"op": "gs:put", "nth": r.randrange(5), "action": r.choice(["err", "crash", "after"])}, {"op": "gs:get", "nth": r.randrange(5), "action": r.choice(["err", "crash"])},
                                             {"op": "gs:list", "nth": r.randrange(2), "action": r.choice(["err", "crash"])}])]
                else:
                    x["faults"] = [disk_fault(r)]
                runs.append(x)
            runs.append(gen_run(r))
        return {"kind": kind, "work": work, "runs": runs}

    def valid(self, c):
        fs = c["work"]["files"]
        return all(len(f) == 3 and f[0] for f in fs) and len({(f[0], f[1]) for f in fs}) == len(fs)

    def execute(self, ctx):
        w = ctx.case["work"]
        src, exp = {}, {}
        for lang, n, k in w["files"]:
            rows = [{"text": f"{lang} {n} {j} ü\n", "timestamp": f"2020-01-0{j % 9 + 1}", "url": f"http://x/{n}/{j}"} for j in range(k)]
            src["in/" + ("zy"[n % 2] + "/" if w.get("folders") else "") + f"c4-{lang}.tfrecord-{n:05d}-of-00099"] = "".join(jl(rows)).encode()
            exp[f"c4-{lang}.{n:05d}.json.gz"] = [(f"c4-{lang}.{n:05d}-{j}", x["text"], x["timestamp"], x["url"]) for j, x in enumerate(rows)]
        gs = {"a": dict(src), "b": {}}
        gs["a"]["in/other.txt"] = b"x"
        gs["a"]["more/c4-en.tfrecord-00050-of-00099"] = "".join(jl([{"text": "t", "timestamp": "2020-01-01", "url": "http://x"}])).encode()
        keep = {}
        if w["out"]:
            keep = {"elsewhere/" + n: b"" for n in exp}
            gs["b"].update(keep)
        os.makedirs(ctx.path("tmp"), exist_ok=True)
        pre = w["out"] + ("/" if w["out"] and not w["out"].endswith("/") else "")
        import tempfile
        main0 = kernel.program(REPO + "/preparation/mc4/mc4.py", ["gs://a/in/", "gs://b/" + w["out"]], fakes.all_mods())

        def main():
            tempfile.tempdir = ctx.path("tmp")
            try:
                main0()
            finally:
                tempfile.tempdir = None
        for k, p, wd in until_ok(self, ctx, main, setup=lambda wd: wd.svc.update(gs=gs)):
            have = {}
            for n, v in gs["b"].items():
                if n in keep:
                    continue
                try:
                    have[n] = [json.loads(x) for x in gzip.decompress(v).decode().splitlines()]
                except (EOFError, ValueError, OSError) as e:
                    bad("records", f"run {k}: {n} cannot be read: {e}")
            if {pre + n for n in exp} != set(have):
                bad("records", f"run {k} exits 0 with the objects {sorted(have)}, not {sorted(exp)}")
            for n, rows in exp.items():
                if [(x["id"], x["text"], x["timestamp"], x["metadata"]["url"]) for x in have[pre + n]] != rows or any(x["lang"] != {n[3:].split(".")[0].split("-")[0]: 1.0} or x["source"] != "mc4" for x in have[pre + n]):
                    bad("records", f"run {k}: {n} holds {have[pre + n]}, not the {len(rows)} records of its input")


PROPS = [Dedup(), EsHits(), EsCounts(), EsUnigrams(), EsIndex(), HfSave(), StackUrls(), StackDownload(), Mc4Combine(), Mc4Convert()]
