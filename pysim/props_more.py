"""More properties of the Python tools: splitting files, contamination of datasets, random documents."""
import copy, gzip, hashlib, json, os, re
import kernel, fakes
from engine import bad, gen_run
from kernel import REPO, mix
from props import Prop, Es, gz, jl, text, read_gz_rows, disk_fault, until_ok, crashed, es_docs, es_load, es_fault, matches, phrases, ES_YML

_rare = {}


def rare(i):
    """texts of every kind of split"""
    if not _rare:
        _rare["list"] = []
        k = 0
        while len(_rare["list"]) < 24:
            t = f"text {k}"
            if hashlib.sha1(t.encode()).hexdigest()[:3] in ("fff", "ffe", "ffd", "ffc"):
                _rare["list"].append(t)
            k += 1
    return _rare["list"][i % 24]


def split_of(t):
    p = hashlib.sha1((t or "").encode()).hexdigest()[:3]
    return "test" if p in ("fff", "ffe") else "valid" if p in ("ffd", "ffc") else "train"


class SplitFiles(Prop):
    id = "P13"
    budget = (4000, 200000)
    rule = "one run of file_split.py over a folder, or several runs of split_files.py at once over generated files, repeated after every failure or crash until they end well."
    real = ["wimbd/utils/file_split.py", "wimbd/utils/split_files.py", "wimbd/utils/utils.py", "gzip, json, argparse, glob"]
    stub = ["tqdm", "GNU parallel (the programs run as simulated processes)"]

    def gen(self, r, i):
        if i % 2:
            names = r.sample(["a", "b", "a.0", "a.1", "part-00000", "en.noblocklist"], r.choice([1, 2, 2, 3]))
            files = {n: [r.randrange(1000) for _ in range(r.choice([0, 1, 2, 3, 5, 6, 11]))] for n in names}
            work = {"tool": "split", "dir": r.choice(["in", "in", "./in", "v1.2/in", "in[1]"]), "cr": r.random() < 0.2, "n": r.choice([1, 2, 3, 5, 7]), "files": files, "nl": r.random() < 0.8, "damage": r.random() < 0.1}
        else:
            names = r.sample(["x/a", "x/b", "x/y/c", "d", "x.1/e", "z/f"], r.choice([1, 2, 2, 3]))
            texts = lambda: [r.choice([None, "", "t%d" % r.randrange(5), rare(r.randrange(24)), rare(r.randrange(24))]) for _ in range(r.choice([0, 1, 2, 4, 7]))]  # noqa
            work = {"tool": "tvt", "files": {n: texts() for n in names}, "id": r.random() < 0.1, "damage": r.random() < 0.1, "dot": r.random() < 0.5}
        kind, runs = "calm", [gen_run(r)]
        if r.random() < 0.5:
            kind, runs = "fault", []
            for _ in range(r.choice([1, 1, 2])):
                x = gen_run(r)
                if r.random() < 0.15:
                    x["fs_left"] = r.randrange(0, 300)
                else:
                    x["faults"] = [disk_fault(r)]
                runs.append(x)
            runs.append(gen_run(r))
        return {"kind": kind, "work": work, "runs": runs}

    def valid(self, c):
        w = c["work"]
        if w["tool"] == "split":
            return w["files"] and w["n"] > 0 and w["dir"] in ("in", "./in", "v1.2/in", "in[1]") and all(n and "/" not in n and n[0] not in "._" for n in w["files"]) and len(set(w["files"])) == len(w["files"])
        return w["files"] and all(n and re.fullmatch(r"[a-z0-9.]+(/[a-z0-9.]+)*", n) and not n.startswith(".") for n in w["files"])

    def execute(self, ctx):
        (self.split if ctx.case["work"]["tool"] == "split" else self.tvt)(ctx)

    def split(self, ctx):
        w = ctx.case["work"]
        lines = {n: [json.dumps({"text": f"{n} {x} ü", "n": j}) + "\n" for j, x in enumerate(xs)] for n, xs in w["files"].items()}
        if w.get("cr"):
            # blanks of JSON that are not ends of lines, and lines that end with both
            lines = {n: [x.replace(", ", ",\r") if j % 3 else x[:-1] + "\r\n" for j, x in enumerate(ls)] for n, ls in lines.items()}
        d = os.path.normpath(w["dir"])
        harmed = None
        for n, ls in lines.items():
            if not w["nl"] and ls:
                ls[-1] = ls[-1][:-1]
            data = gz(ls)
            if w["damage"] and harmed is None:
                harmed, data = n, data[:-5]
            ctx.write(f"{d}/{n}.jsonl.gz", data)
        main = kernel.program(REPO + "/wimbd/utils/file_split.py", ["--in_folder", w["dir"]] + (["--n", str(w["n"])] if w["n"] != 5 or w["nl"] else []), fakes.all_mods())
        for k in range(len(ctx.case["runs"])):
            p = ctx.launch(main, k)
            wd = ctx.worlds[-1]
            if crashed(wd):
                ctx.probes.add("crashed")
                continue
            if p.code != 0:
                ctx.probes.add("error_raised")
                if not wd.fired and not wd.ctr.get("fault:disk_full") and harmed is None:
                    bad("spurious_failure", f"run {k} fails without a fault: {p.stderr[-500:]}")
                continue
            if harmed is not None:
                bad("damage_ignored", f"run {k} exits 0 although {harmed} is damaged")
            ctx.probes.add("complete")
            for n, ls in lines.items():
                got = []
                for i in range(w["n"]):
                    b = ctx.read(f"{d}/{n}_{i}.json.gz")
                    if b is None:
                        bad("lines", f"run {k} exits 0 but {d}/{n}_{i}.json.gz does not exist; there are {ctx.files()}")
                    try:
                        part = re.findall(r"[^\n]*\n|[^\n]+", gzip.decompress(b).decode())
                    except (EOFError, ValueError, OSError) as e:
                        bad("lines", f"run {k} exits 0 but part {i} of {n} cannot be read: {e}")
                    if i < w["n"] - 1 and len(part) != len(ls) // w["n"]:
                        bad("lines", f"run {k}: part {i} of {w['n']} of {n} has {len(part)} of {len(ls)} lines")
                    got += part
                if got != ls:
                    bad("lines", f"run {k} exits 0 but the parts of {n} hold {len(got)} of {len(ls)} lines, or other lines")
                if ctx.read(f"{d}/{n}.jsonl.gz") != gz(ls):
                    bad("input_changed", f"run {k} changed {n}")

    def tvt(self, ctx):
        w = ctx.case["work"]
        harmed = set()
        for j, (n, ts) in enumerate(w["files"].items()):
            rows = [dict({"text": t, "n": i}, **({"id": f"own{i}"} if w["id"] and j == 0 else {})) for i, t in enumerate(ts)]
            if w["id"] and j == 0 and ts:
                harmed.add(n)
            data = gz(jl(rows))
            if w["damage"] and j == 0:
                harmed.add(n)
                data = data[:-5]
            ctx.write(f"data/{n}.jsonl.gz", data)
        jobs = [(REPO + "/wimbd/utils/split_files.py", ["--in_file", ("./" if w["dot"] else "") + n + ".jsonl.gz", "--out_prefix", ctx.path("out")]) for n in w["files"]]
        inner = kernel.programs(jobs, fakes.all_mods(), ["wimbd.utils.utils"])

        def main():
            os.chdir(ctx.path("data"))
            inner()
        for k in range(len(ctx.case["runs"])):
            p = ctx.launch(main, k)
            wd = ctx.worlds[-1]
            if crashed(wd):
                ctx.probes.add("crashed")
                continue
            if p.code != 0:
                bad("failure", p.stderr[-400:])
            for (n, ts), q in zip(w["files"].items(), wd.jobs):
                if q.code != 0:
                    ctx.probes.add("error_raised")
                    if not wd.fired and not wd.ctr.get("fault:disk_full") and n not in harmed:
                        bad("spurious_failure", f"run {k}: splitting {n} fails without a fault: {q.stderr[-500:]}")
                    continue
                if n in harmed:
                    bad("damage_ignored", f"run {k} exits 0 although {n} " + ("holds documents that have an id" if w["id"] else "is damaged"))
                ctx.probes.add("complete")
                for s in ("train", "valid", "test"):
                    got = read_gz_rows(ctx, f"out/{n}.{s}.jsonl.gz", k)
                    exp = [{"text": t, "n": i, "id": hashlib.sha1((t or "").encode()).hexdigest()} for i, t in enumerate(ts) if split_of(t) == s]
                    if got != exp:
                        bad("splits", f"run {k} exits 0 but the {s} split of {n} is {got}, expected {exp}")


class Contamination(Es):
    id = "P14"
    budget = (8000, 400000)
    rule = "one measurement of the contamination of a generated dataset against a generated index, with faults of the cluster and of loading the dataset."
    real = ["wimbd/es/corpus_contamination.py", "wimbd/es/__init__.py", "argparse"]
    stub = Es.stub + ["datasets (columns in memory)", "wandb (keeps the summary)"]

    def gen(self, r, i):
        docs = es_docs(r)
        n = r.choice([1, 1, 2, 3, 5, 61, 121]) if r.random() < 0.9 else 60
        cols = [[phrases(r, docs, 1)[0] for _ in range(n)] for _ in range(r.choice([1, 1, 2, 3]))]
        work = {"indices": {"idx": {"shards": r.choice([1, 2, 3]), "replicas": r.choice([0, 1]), "docs": docs}}, "cols": cols, "split": r.choice(["train", "validation"]), "sub": r.random() < 0.5}
        run = gen_run(r, threads=False)
        kind = "calm"
        if r.random() < 0.5:
            kind = "fault"
            run["faults"] = es_fault(r, ["msearch"]) if r.random() < 0.9 else [{"op": "stream", "nth": 0, "action": "err"}]
        return {"kind": kind, "work": work, "runs": [run]}

    def valid(self, c):
        w = c["work"]
        return w["cols"] and len({len(x) for x in w["cols"]}) == 1 and w["cols"][0] and all(fakes.tokens(t) for x in w["cols"] for t in x) and all(ix["shards"] > 0 and all("text" in d for d in ix["docs"]) for ix in w["indices"].values()) and \
            "idx" in w["indices"] and w["split"] in ("train", "validation")

    def execute(self, ctx):
        w = ctx.case["work"]
        c = es_load(w)
        names = ["sentence1", "sentence2", "label"][:len(w["cols"])]
        other = {"sentence1": ["zzz"], "sentence2": ["zzz"], "label": ["zzz"]}
        sub = "rte" if w["sub"] else None
        table = {"train": other, "validation": other}
        table[w["split"]] = dict(zip(names, w["cols"]))
        tables = {("glue", sub): table}
        argv = ["--corpus", "glue", "--index", "idx", "--split", w["split"], "--fields", ",".join(names)] + (["--sub_corpus", "rte"] if w["sub"] else [])
        main = kernel.program(REPO + "/wimbd/es/corpus_contamination.py", argv, fakes.all_mods(), env={"ES_API_KEY": "k"})
        p = ctx.launch(main, 0, setup=lambda wd: wd.svc.update(es=c, tables=tables))
        wd = ctx.worlds[-1]
        if p.code != 0:
            ctx.probes.add("error_raised")
            if not wd.fired:
                bad("spurious_failure", f"fails without a fault: {p.stderr[-500:]}")
            return
        ctx.probes.add("pairs" if len(names) > 1 else "single")
        n = len(w["cols"][0])
        hits = sum(any(all(matches(col[i], d) for col in w["cols"]) for d in w["indices"]["idx"]["docs"]) for i in range(n))
        got = p.stdout.strip().splitlines()[-1:]
        sm = wd.svc.get("wandb", {})
        if got != [str(hits / n)]:
            bad("share", f"prints {got}, but {hits} of {n} examples occur in the index" + (f" (faults: {wd.fired})" if wd.fired else ""))
        if (sm.get("n"), sm.get("count"), sm.get("percentage")) != (n, hits, hits / n):
            bad("share", f"the summary is {sm}, but {hits} of {n} examples occur in the index")


class RandomDocuments(Es):
    id = "P15"
    budget = (4000, 200000)
    rule = "a sequence of random_documents calls over generated indices and id files, with faults of the cluster."
    real = ["wimbd/es/random_access.py", "wimbd/indexing/__init__.py", "wimbd/es/__init__.py", "numpy"]
    stub = Es.stub + ["h5py"]

    def gen(self, r, i):
        names = r.sample(["idx", "laion2b-en-2", "other"], r.choice([1, 2, 3]))
        work = {"indices": {n: {"shards": r.choice([1, 2]), "replicas": 0, "docs": es_docs(r, r.choice([1, 2, 3, 5, 8]))} for n in names},
                "calls": [[r.choice(names + ["absent"]) if r.random() < 0.1 else r.choice(names), r.choice([0, 1, 2, 5, "all", "one", "one"])] for _ in range(r.choice([1, 2, 3]))]}
        run = gen_run(r, threads=False)
        kind = "calm"
        if r.random() < 0.4:
            kind = "fault"
            run["faults"] = es_fault(r, ["get", "get", "cat"], partial=False)
        return {"kind": kind, "work": work, "runs": [run]}

    def valid(self, c):
        w = c["work"]
        return w["calls"] and w["indices"] and all(ix["shards"] > 0 and ix["docs"] and all("text" in d for d in ix["docs"]) for ix in w["indices"].values()) and all(len(x) == 2 and (x[1] in ("all", "one") or x[1] >= 0) for x in w["calls"])

    def execute(self, ctx):
        import numpy as np
        import pickle
        w = ctx.case["work"]
        c = es_load(w)
        out = []
        ids = {}
        for n, ix in w["indices"].items():
            ids[n] = [f"{n}-{j}" for j in range(len(ix["docs"]))]
            os.makedirs(ctx.path(n), exist_ok=True)
            ctx.write(f"{n}/ids.h5", pickle.dumps({"ids": np.array(ids[n], dtype="S40")}))
        calls = [(n, 60 * len(ids.get(n, [0])) if k == "all" else k) for n, k in w["calls"]]

        def body():
            import wimbd.es.random_access as ra
            import wimbd.indexing as one
            for n, k in calls:
                before = len(kernel.WORLD.fired)
                try:
                    if k == "one":
                        r = [one.random_access(n, ctx.path(n) + "/ids.h5")]
                    else:
                        r = ra.random_documents(n, ctx.path(n), k)
                except Exception as e:  # noqa
                    kernel.WORLD.guard(e)
                    out.append(("error", e, len(kernel.WORLD.fired) > before))
                else:
                    out.append(("ok", r, len(kernel.WORLD.fired) > before))
        p = ctx.launch(kernel.call(body, fakes.all_mods()), 0, setup=lambda wd: wd.svc.update(es=c))
        if p.code != 0:
            bad("failure", p.stderr[-400:])
        for j, ((n, k), o) in enumerate(zip(calls, out)):
            if o[0] == "error":
                ctx.probes.add("error_raised")
                if not o[2] and n in ids:
                    bad("spurious_failure", f"call {j} ({n}, {k}) fails without a fault: {o[1]!r}")
                continue
            if n not in ids:
                bad("unknown_index", f"call {j} returns documents of an index that does not exist")
            ctx.probes.add("documents")
            k = 1 if k == "one" else k
            if len(o[1]) != k:
                bad("documents", f"call {j} returns {len(o[1])} documents instead of {k}")
            for d in o[1]:
                i = int(d["_id"].rsplit("-", 1)[1]) if d["_id"] in ids[n] else -1
                if i < 0 or not d.get("found") or d.get("_source") != w["indices"][n]["docs"][i]:
                    bad("documents", f"call {j} on {n} returns {d}")
            if k >= 60 * len(ids[n]) and {d["_id"] for d in o[1]} != set(ids[n]):
                bad("sampling", f"call {j}: {k} draws from {n} never return {sorted(set(ids[n]) - {d['_id'] for d in o[1]})}")


class LengthSummary(Prop):
    id = "P20"
    budget = (6000, 200000)
    rule = "one run of summarize.py over generated files of counted lengths, repeated after every failure or crash until it ends well."
    real = ["wimbd/sentence_lengths/summarize.py", "json"]
    stub = ["tqdm", "the fixed folders of the script (moved into the scratch directory)"]
    IN, TOK, CHAR = "home/alanes/wimbd/lengths_data", "home/alanes/wimbd/lengths_tok_summary", "home/alanes/wimbd/lengths_char_summary"

    def gen(self, r, i):
        def counts():
            return {str(k): r.choice([1, 2, 3, 17, 100000]) for k in r.sample(range(0, r.choice([8, 40, 5000])), r.choice([0, 1, 2, 3, 7]))}

        def counted():
            c = {"chars": counts(), "tokens": counts(), "none": r.choice([0, 0, 3])}
            if not c["chars"] or not c["tokens"]:
                if r.random() < 0.7:
                    c["chars"], c["tokens"] = {"5": 2, "7": 1}, {"5": 1, "2": 2}
            return c
        names = r.sample(["c4", "dolma-v1_5", "the_pile", "s2orc", "oscar"], r.choice([1, 1, 2, 3, 4]))
        work = {"files": {n: counted() for n in names}, "order": r.randrange(1000), "old": r.random() < 0.3, "damage": r.choice([0, 0, 0, 0, 0, 0, 1, 2])}
        kind, runs = "calm", [gen_run(r, threads=False)]
        if r.random() < 0.6:
            kind, runs = "fault", []
            for _ in range(r.choice([1, 1, 2])):
                x = gen_run(r, threads=False)
                if r.random() < 0.15:
                    x["fs_left"] = r.randrange(0, 300)
                else:
                    x["faults"] = [disk_fault(r)]
                runs.append(x)
            runs.append(gen_run(r, threads=False))
        return {"kind": kind, "work": work, "runs": runs}

    def valid(self, c):
        w = c["work"]
        return w["files"] and all(re.fullmatch(r"[a-z0-9_-]+", n) for n in w["files"]) and \
            all({"chars", "tokens", "none"} <= set(f) and all(int(k) >= 0 and v > 0 for x in (f["chars"], f["tokens"]) for k, v in x.items()) for f in w["files"].values())

    def execute(self, ctx):
        import random
        w = ctx.case["work"]
        for d in (self.IN, self.TOK, self.CHAR):
            os.makedirs(ctx.path(d), exist_ok=True)
        harmed = None
        for j, (n, f) in enumerate(w["files"].items()):
            rows = [{"key": f"{t} {k}", "count": c} for t in ("chars", "tokens") for k, c in f[t].items()] + ([{"key": "text is None", "count": f["none"]}] if f["none"] else [])
            random.Random(w["order"]).shuffle(rows)
            lines = jl(rows)
            if w["damage"] and j == 0 and lines:
                harmed = n
                k = -1 if w["damage"] == 1 else 0
                lines[k] = lines[k][:-4] + ("" if k else "\n")
            ctx.write(f"{self.IN}/{n}.jsonl", "".join(lines).encode())
            if w["old"]:
                ctx.write(f"{self.TOK}/toks_{n}.json", json.dumps({str(x): 0.001 for x in range(200)}).encode())
                ctx.write(f"{self.CHAR}/chars_{n}.json", json.dumps({str(x): 0.001 for x in range(200)}).encode())
        before = {n: ctx.read(f"{self.IN}/{n}.jsonl") for n in w["files"]}
        main = kernel.program(REPO + "/wimbd/sentence_lengths/summarize.py", [], fakes.all_mods())

        def common(k, p, wd):
            for n, b in before.items():
                if ctx.read(f"{self.IN}/{n}.jsonl") != b:
                    bad("input_changed", f"run {k} changed the counts of {n}")
            if harmed and p.code == 0 and not crashed(wd):
                bad("damage_ignored", f"run {k} exits 0 although the counts of {harmed} are cut short")
            if harmed and p.code:
                wd.fired.append("damaged input")
        for k, p, wd in until_ok(self, ctx, main, setup=lambda wd: wd.svc.update(root=ctx.root), after=common):
            for n, f in w["files"].items():
                for t, out in (("tokens", f"{self.TOK}/toks_{n}.json"), ("chars", f"{self.CHAR}/chars_{n}.json")):
                    b = ctx.read(out)
                    try:
                        got = {int(x): y for x, y in json.loads(b).items()}
                    except (TypeError, ValueError, AttributeError) as e:
                        bad("summary", f"run {k} exits 0 but {out} cannot be read: {e!r}")
                    total = sum(f[t].values())
                    exp = {int(x): y / total for x, y in f[t].items()}
                    if set(got) != set(exp) or any(abs(got[x] - exp[x]) > 1e-9 for x in exp):
                        bad("summary", f"run {k}: the shares of the {t} lengths of {n} are {got}, expected {exp}")


PROPS = [SplitFiles(), Contamination(), RandomDocuments(), LengthSummary()]
