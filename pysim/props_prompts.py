"""Properties of the prompt templates and dataset lists of the contamination analysis."""
import csv, io, json, os, re
import yaml
import kernel, fakes
from engine import bad, gen_run
from kernel import REPO
from props import Prop, disk_fault, crashed

SETS = [["anli", None], ["glue", "rte"], ["glue", "mrpc"], ["glue", None], ["craffel/openai", None], ["wiki", "en"]]
JINJA = ["{{text}} ||| {{label}}", "Given {{ premise }} and {{hypothesis}}: {{a_b-c}}", "no variables", "{% if x %}{{ x | upper }}{% endif %} {{y}}", "ü: \"{{q}}\"\n\t'{{r}}' # {{q}}", "{{x}}\n\n", "", "null", "!Template {{t}}", "- {{a}}: {b}" * 40]


class Loader(yaml.SafeLoader):
    """reads the files independently of the tool"""


for _t in ("!Template", "!TemplateMetadata"):
    Loader.add_constructor(_t, lambda l, n: l.construct_mapping(n, deep=True))


class TemplateStore(Prop):
    id = "P18"
    budget = (2000, 150000)
    rule = "edits of the prompt templates of several datasets by one process after another, each with disk errors, a full disk or a crash; what is on disk is read after each."
    real = ["wimbd/contamination/templates.py", "wimbd/contamination/promptsource_parse.py", "PyYAML"]
    stub = ["jinja2 (nothing is rendered)", "pandas (a table of rows)", "pkg_resources"]

    def gen(self, r, i):
        sets = r.sample(SETS, r.choice([1, 1, 2, 3]))
        if r.random() < 0.3:
            # a dataset and one of its subsets
            sets = r.choice([[a, b] for a in SETS for b in SETS if a[0] == b[0] and not a[1] and b[1]])
        names = r.choice([1, 2, 6])
        runs = []
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            x = gen_run(r, threads=False)
            q = r.random()
            if q < 0.15:
                x["fs_left"] = r.randrange(0, 3000)
            elif q < 0.65:
                x["faults"] = [disk_fault(r)]
                if r.random() < 0.3:
                    x["faults"] = [{"op": r.choice(["remove", "mkdir", "replace", "write", "close"]), "nth": r.randrange(0, 6), "action": "err", "arg": r.choice([5, 13])}]
            x["ops"] = [[r.choice(["add", "add", "add", "update", "remove", "remove", "read", "list"]), r.randrange(len(sets)), r.randrange(names), r.randrange(len(JINJA)), r.random() < 0.3] for _ in range(r.choice([1, 2, 3, 5, 8]))]
            runs.append(x)
        for kind in ["list"] + ["parse"] * r.choice([1, 2]):
            x = gen_run(r, threads=False)
            x["ops"] = [[kind, 0, 0, 0, False]]
            runs.append(x)
        if len(runs) > 2 and r.random() < 0.7:
            runs[-2]["faults"] = [disk_fault(r)]
        return {"kind": "fault" if any(x.get("faults") or x.get("fs_left") is not None for x in runs) else "calm", "work": {"sets": sets, "hold": r.random() < 0.5, "coll": r.random() < 0.3}, "runs": runs}

    def valid(self, c):
        w = c["work"]
        n = len(w["sets"])
        return n and all(x in SETS for x in w["sets"]) and all(len(o) == 5 and o[0] in ("add", "update", "remove", "read", "list", "parse") and o[1] < n and 0 <= o[2] < 6 and o[3] < len(JINJA) for r in c["runs"] for o in r["ops"])

    # the reference model: {set: {name: fields}}

    def fields(self, op, k, i):
        _, _, name, j, full = op
        d = {"name": f"t {name}", "jinja": JINJA[j], "reference": f"run {k} op {i}", "answer_choices": "yes ||| no" if full else None}
        d["metadata"] = {"original_task": True, "choices_in_prompt": False, "metrics": ["Accuracy", "Other"], "languages": ["en"]} if full else {"original_task": None, "choices_in_prompt": None, "metrics": None, "languages": None}
        return d

    def on_disk(self, ctx, k, sets):
        out, order = {}, {}
        for d, s in map(tuple, sets):
            f = "T/" + d + ("/" + s if s else "") + "/templates.yaml"
            b = ctx.read(f)
            if b is None:
                out[d, s] = {}
                continue
            try:
                y = yaml.load(b.decode(), Loader)
                ts = y["templates"]
                if y["dataset"] != d or y.get("subset") != s or any(v["id"] != i for i, v in ts.items()):
                    bad("file", f"run {k}: {f} belongs to {y['dataset']} {y.get('subset')}")
                out[d, s] = {v["name"]: {x: v[x] for x in ("name", "jinja", "reference", "answer_choices", "metadata")} for v in ts.values()}
                if len(out[d, s]) != len(ts):
                    bad("file", f"run {k}: {f} holds templates of the same name")
                order[d, s] = [v["jinja"] for v in ts.values()]
            except (yaml.YAMLError, ValueError, TypeError, KeyError) as e:
                bad("file", f"run {k} leaves {f} unreadable: {type(e).__name__}: {str(e)[:200]} {b[:80]}" + self.why(ctx))
        return out, order

    def why(self, ctx):
        wd = ctx.worlds[-1]
        return f" (faults: {wd.fired})" if wd.fired else " (disk full)" if wd.ctr.get("fault:disk_full") else ""

    def execute(self, ctx):
        w = ctx.case["work"]
        sets = [tuple(x) for x in w["sets"]]
        os.makedirs(ctx.path("T"), exist_ok=True)
        state = {x: {} for x in sets}
        for k, r in enumerate(ctx.case["runs"]):
            if any(op[0] == "parse" for op in r["ops"]):
                self.parse(ctx, k, sets)
                continue
            log = []

            def body():
                import wimbd.contamination.templates as T
                T.TEMPLATES_FOLDER_PATH = ctx.path("T")
                hold = {}

                def templates(x, i):
                    if not w.get("coll"):
                        return hold.get(x) or T.DatasetTemplates(*x)
                    # all from one collection, each obtained now or earlier
                    if "coll" not in hold:
                        hold["coll"] = T.TemplateCollection()
                    if i % 2 and x in hold:
                        return hold[x]
                    d = hold["coll"].get_dataset(*x)
                    hold.setdefault(x, d)
                    return d
                for i, op in enumerate(r["ops"]):
                    what, x = op[0], sets[op[1]]
                    f = self.fields(op, k, i)
                    log.append([op, i, "begun", None])
                    before = len(kernel.WORLD.fired) + kernel.WORLD.ctr.get("fault:disk_full", 0)
                    try:
                        if what == "list":
                            c = T.TemplateCollection()
                            res = (c.get_templates_count(), {key: {n: c.get_dataset(*key)[n].jinja for n in c.get_dataset(*key).all_template_names} for key in c.keys})
                            df = T.get_templates_data_frame()
                            res += (sorted((a["dataset"], a["subset"] or "", a["name"], a["jinja"], repr([a[x] for x in ("reference", "answer_choices", "original_task", "choices_in_prompt", "metrics", "languages")])) for _, a in df.iterrows()),)
                            res[1].update({("order", key): 0 for key, v in res[1].items() if [*v] != sorted(v)})
                        else:
                            d = templates(x, i)
                            if w["hold"] and not w.get("coll"):
                                hold[x] = d
                            res = None
                            if what == "add":
                                if f["name"] in d.all_template_names:
                                    what = "none"
                                else:
                                    m = T.Template.Metadata(**f["metadata"])
                                    d.add_template(T.Template(f["name"], f["jinja"], f["reference"], m, f["answer_choices"]))
                            elif what == "update":
                                old = (d.all_template_names or [None])[op[2] % max(1, len(d))]
                                if old is None or (f["name"] != old and f["name"] in d.all_template_names):
                                    what = "none"
                                else:
                                    res = old
                                    d.update_template(old, f["name"], f["jinja"], f["reference"], T.Template.Metadata(**f["metadata"]), f["answer_choices"])
                            elif what == "remove":
                                try:
                                    d.remove_template(f["name"])
                                except ValueError:
                                    what = "missing"
                            elif what == "read":
                                res = {n: d[n].jinja for n in d.all_template_names}
                                if [*res] != sorted(res) or len(d) != len(res):
                                    res = {"order": [*res]}
                    except Exception as e:  # noqa
                        kernel.WORLD.guard(e)
                        hold.clear()
                        log[-1][2:] = ["error", (e, len(kernel.WORLD.fired) + kernel.WORLD.ctr.get("fault:disk_full", 0) > before)]
                    else:
                        log[-1][2:] = [what, res]
            p = ctx.launch(kernel.call(body, fakes.all_mods()), k)
            wd = ctx.worlds[-1]
            if p.code != 0 and not crashed(wd):
                bad("failure", p.stderr[-400:])
            may = {x: [v] for x, v in state.items()}
            for op, i, how, res in log:
                x = sets[op[1]]
                f = self.fields(op, k, i)
                n = f["name"]
                if how == "error":
                    ctx.probes.add("error_raised")
                    if not res[1]:
                        bad("spurious_failure", f"run {k}: {op} fails without a fault: {res[0]!r}")
                if how in ("none", "missing"):
                    if not any((n in s) == (how == "none") or op[0] == "update" for s in may[x]):
                        bad("names", f"run {k}: {op} says that {n!r} is {'there' if how == 'none' else 'missing'}, expected {may[x]}")
                    continue
                if how == "read" and not any(res == {a: b["jinja"] for a, b in s.items()} for s in may[x]):
                    bad("lost", f"run {k}: reading {x} gives {res}, expected {may[x]}")
                if how == "list":
                    ctx.probes.add("listed")
                    if res[1].keys() - set(sets):
                        bad("listed", f"run {k}: datasets {sorted(map(str, res[1].keys() - set(sets)))} are listed but do not exist")
                    for y in sets:
                        got = res[1].get(y, {})
                        may[y] = [s for s in may[y] if got == {a: b["jinja"] for a, b in s.items()}]
                        if not may[y]:
                            bad("lost", f"run {k}: the collection has {got} for {y}, expected {state[y]}" + self.why(ctx))
                        if sorted((y[0], y[1] or "", a, b["jinja"], repr([b["reference"], b["answer_choices"]] + [b["metadata"][m] for m in ("original_task", "choices_in_prompt", "metrics", "languages")])) for a, b in may[y][0].items()) != [t for t in res[2] if t[0] == y[0] and t[1] == (y[1] or "")]:
                            bad("lost", f"run {k}: the table of templates has {res[2]}, expected {may[y][0]}")
                    for d in {y[0] for y in sets}:
                        if res[0].get(d, 0) != sum(len(may[y][0]) for y in sets if y[0] == d):
                            bad("listed", f"run {k}: {res[0].get(d, 0)} templates of {d} are counted")
                if how in ("add", "update", "remove", "begun", "error") and op[0] in ("add", "update", "remove"):
                    new = []
                    for s in may[x]:
                        t = dict(s)
                        if op[0] == "add" and n not in s:
                            t[n] = f
                        elif op[0] == "remove":
                            t.pop(n, None)
                        elif op[0] == "update" and s:
                            old = res if how == "update" else sorted(s)[op[2] % len(s)]
                            if old in s and (n == old or n not in s):
                                del t[old]
                                t[n] = f
                        new += [t] if how not in ("begun", "error") else [s, t]
                    may[x] = new
                    ctx.probes.add(op[0])
            got, _ = self.on_disk(ctx, k, sets)
            for x in sets:
                if got[x] not in may[x]:
                    bad("lost", f"run {k} leaves {sorted(got[x])} for {x}, expected {[sorted(s) for s in may[x]]}; " + "; ".join(f"{o[0][0]} {o[2]}" for o in log) + self.why(ctx))
            if crashed(wd):
                ctx.probes.add("crashed")
            state = got

    def parse(self, ctx, k, sets):
        order = self.on_disk(ctx, k, sets)[1]
        main = kernel.program(REPO + "/wimbd/contamination/promptsource_parse.py", ["--path", ctx.path("T"), "--out_file", ctx.path("p3.tsv")], fakes.all_mods())
        p = ctx.launch(main, k)
        wd = ctx.worlds[-1]
        if crashed(wd):
            return
        if p.code != 0:
            ctx.probes.add("error_raised")
            if not wd.fired:
                bad("spurious_failure", f"promptsource_parse.py fails without a fault: {p.stderr[-500:]}")
            return
        rows = sorted(csv.reader(io.StringIO((ctx.read("p3.tsv") or b"").decode()), delimiter="\t"))
        exp = sorted([(x[0].split("/") + [x[1] or ""])[0], (x[0].split("/") + [x[1] or ""])[1], str(re.findall(r"{{([a-zA-Z0-9_-]*)}}", js[0].replace(" ", "")))] for x, js in order.items())
        ctx.probes.add("parsed")
        if rows != exp:
            bad("parsed", f"promptsource_parse.py lists {rows}, expected {exp}" + self.why(ctx))


# ------------------------------------------------------------------ P19 the list of English datasets

# tags of a dataset card as YAML gives them: a list, one tag without a list, nothing, `no` read as false
LANGUAGE = [["en"], ["en-US"], ["en", "de"], ["de", "en-US"], "en", "en-US", ["de"], ["de", "fr"], [], "de", None, ["ben"], ["en-GB"], ["EN"], "ben", "en-GB", "multilingual", "code", ["code", "en"], [None, "en"], ["de", False], False, ["eng"], "eng", "Bengali"]


class EnglishDatasets(Prop):
    id = "P19"
    budget = (12000, 400000)
    rule = "listings of the datasets of a generated hub, which gives them page by page, with failing, broken off and refused requests."
    real = ["wimbd/contamination/utils.py (filter_english_datasets, list_datasets)"]
    stub = ["requests (an in-memory hub with pages that can fail)", "datasets"]

    def gen(self, r, i):
        n = r.choice([0, 1, 2, 3, 5, 8, 13, 20])
        names = [r.choice(["", "", "zaid/", "Org/", "en/"]) + w + str(k) for k, w in enumerate(r.choice(["squad", "Wiki", "c4", "wiki", "SQuAD", "_x"]) for _ in range(n))]
        ds = []
        for x in names:
            q = r.random()
            d = {"id": x, "author": "a", "tags": ["language:en"] if r.random() < 0.3 else []}
            if q > 0.1:
                d["cardData"] = None if q < 0.15 else {"license": "mit"} if q < 0.25 else {"license": "mit", "language": r.choice(LANGUAGE)}
            ds.append(d)
        run = gen_run(r, threads=False)
        kind = "calm"
        if r.random() < 0.6:
            kind = "fault"
            k = r.choice([1, 1, 2])
            run["faults"] = [{"op": "http:get", "nth": r.randrange(0, 8), "action": r.choice(["err", "timeout", "cut", "status", "status"]), "arg": r.choice([429, 500, 502, 503])} for _ in range(k)]
        return {"kind": kind, "work": {"datasets": ds, "page": r.choice([1, 2, 3, 5, 100]), "calls": [r.choice(["list_datasets", "filter_english_datasets"]) for _ in range(r.choice([1, 2, 3]))]}, "runs": [run]}

    def valid(self, c):
        w = c["work"]
        return w["page"] > 0 and w["calls"] and all(x in ("list_datasets", "filter_english_datasets") for x in w["calls"]) and all(d.get("id") for d in w["datasets"]) and len({d["id"] for d in w["datasets"]}) == len(w["datasets"])

    def execute(self, ctx):
        w = ctx.case["work"]
        out = []

        def body():
            import wimbd.contamination.utils as u
            for c in w["calls"]:
                before = len(kernel.WORLD.fired)
                try:
                    r = getattr(u, c)()
                except Exception as e:  # noqa
                    kernel.WORLD.guard(e)
                    out.append(("error", repr(e), len(kernel.WORLD.fired) > before))
                else:
                    out.append(("ok", r, len(kernel.WORLD.fired) > before))
        p = ctx.launch(kernel.call(body, fakes.all_mods()), 0, setup=lambda wd: wd.svc.update(hub={"datasets": w["datasets"], "page": w["page"]}))
        if p.code != 0:
            bad("failure", p.stderr[-400:])
        exp = []
        for d in w["datasets"]:
            ls = (d.get("cardData") or {}).get("language")
            if any(x in ("en", "en-US") for x in (ls if isinstance(ls, list) else [ls])):
                exp.append(d["id"])
        for j, (c, o) in enumerate(zip(w["calls"], out)):
            if o[0] == "error":
                ctx.probes.add("error_raised")
                if not o[2]:
                    bad("spurious_failure", f"call {j} ({c}) fails without a fault: {o[1]}")
                continue
            ctx.probes.add("listed_after_fault" if o[2] else "listed")
            if len(w["datasets"]) > w["page"]:
                ctx.probes.add("pages")
            got = [*o[1]]
            if sorted(got) != sorted(exp):
                bad("listed", f"call {j} ({c}) returns {got}; missing {sorted(set(exp) - set(got))}, wrong {sorted(set(got) - set(exp))}, of {len(exp)}")
            if got != (sorted(exp) if c == "filter_english_datasets" else sorted(sorted(exp), key=str.lower)):
                bad("order", f"call {j} ({c}) returns {got} in another order")


PROPS = [TemplateStore(), EnglishDatasets()]
