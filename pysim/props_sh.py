"""The properties of the shell pipelines (see shell.py)."""
import collections, csv, functools, gzip, hashlib, itertools, json, os, re, shutil
import shell
from engine import bad
from kernel import REPO, mix
from props import Prop, gz, jl, text, WORDS

T = REPO + "/wimbd/text_and_url_overlaps"


def gen_jobs(r, faults=()):
    return {"sched": {"policy": "serial"}, "faults": list(faults), "io_seed": r.choice([0, r.getrandbits(31), r.getrandbits(31), r.getrandbits(31)])}


def damage(data, kind, at):
    """a file that must not be taken for complete"""
    if kind == "cut":
        return data[:max(1, min(len(data) - 1, at % max(1, len(data))))]
    if kind == "trailer":
        return data[:-1 - at % 8]
    if kind == "crc":
        return data[:-8] + bytes([data[-8] ^ 1]) + data[-7:]
    if kind == "none":
        return None
    return data


class ShellProp(Prop):
    assumptions = ["the jobs of a pipeline run one after another in the drawn order; programs in a pipe run concurrently but communicate through pipes only",
                   "native tools (sort, uniq, sed, awk, cut, jq, gzip) fail by ending early with status 2 or by SIGKILL"]
    stub = ["GNU parallel (jobs in a seeded order, output grouped per job or mixed by lines, status = number of failed jobs)", "pv", "python (forked from a prepared interpreter)"]

    def judge_exit(self, ctx, k, code, err, harmed):
        """True if the output must be exact"""
        wd = ctx.worlds[-1]
        if code == 0:
            ctx.probes.add("complete")
            return True
        ctx.probes.add("error_raised")
        if not wd.fired and not harmed:
            bad("spurious_failure", f"run {k} fails without a fault: {err[-500:]}")
        return False


# ------------------------------------------------------------------ P11 map-reduce analyses

HOSTS = ["a.com", "b.org", "www.a.com", "c.co.uk", "x.de:8080", "gone.net", "missing.org", "broken.com"]
ODD_HOSTS = ["", "a b.com", "b.com 7"]
SAY = ["he", "him", "himself", "she", "hers", "the", "muslim", "muslims", "hindus", "asian", "latino", "white", "woman", "black", "man", "good", "good", "bad", "great", "awful", "day", "shell"]
FILLER = "lorem ipsum dolor sit amet consectetur adipiscing elit sed eiusmod tempor incididunt"
PII = {"email": ["bob.smith@example.com", "BOB@Example.COM", "(ann@x.org)", "ann@x.org,", "a.b+c@sub.dom.co.", "\"joe@x.net\""],
       "phone_numbers": ["555-123-4567", "(555) 123-4567", "555.123.4567", "5551234567", "555 123-4567"],
       "IP_addresses": ["192.168.10.7", "8.8.8.8", "255.255.255.255", "1.22.33.4"],
       # looks like an address and is none by the rules
       "nothing": ["bob@localhost", "(@example.com", "555-12-4567", "1.2.3", "@"]}
MARKS = ["ISBN", "doi", "#", "http://www.ab.com/x"]
GAP = "lorem ipsum dolor sit amet " * 4
JUNK = {"dots": "." * 60, "dots50": ("." * 11 + " ") * 50, "dots51": ("." * 11 + " ") * 51, "bang": "!" * 150, "hash7": "# # # # # # #", "hash6": "# # # # # #", "q6": "??????", "q7": "???????",
        "slash50": "/ / / / / x " * 50, "slash51": "/ / / / / x " * 51, "comma": "," * 120, "smile": ":)" * 100, "pct1000": "%" * 1000, "pct1001": "%" * 1001, "semi": ";" * 150, "few": "... !!! ,,, ;;; :) :)"}
HARMLESS = ("dots50", "hash6", "q6", "slash50", "pct1000", "few")


def pii_text(d):
    """the text of a document and what is to be found in it"""
    if d["t"] in (None, "", " "):
        return d["t"], []
    text, found = ("\u0130" * 40 if d["t"] == "turkish" else "") + " ", []
    for typ, var, mark, side, dist in d["pii"]:
        item = PII[typ][var]
        text += FILLER + " " if d["t"] != "start" or len(text) > 1 else ""
        if mark is None:
            text += item + " "
        else:
            m = MARKS[mark]
            gap = 48 - len(m) + dist - (dist == 0 and item[0] == "(")
            fill = "".join(c if c != " " or 0 < k < gap - 1 else "x" for k, c in enumerate(GAP[:gap]))
            text += f"{m} {fill} {item} " if side == "before" else f"{item} {fill} {m} "
        if typ == "nothing":
            continue
        near = mark is not None and dist <= 0
        if not near or typ == "email" or (typ == "IP_addresses" and mark == 3):
            found.append(typ)
    text += FILLER
    if d.get("junk"):
        text += " " + JUNK[d["junk"]] + " " + FILLER
        if d["junk"] not in HARMLESS:
            found = []
    if d["t"] in ("500000", "500001"):
        n = int(d["t"])
        text += (" " + FILLER) * (1 + n // len(FILLER))
        text = text[:n]
        if n > 500000:
            found = []
    return text, found


@functools.lru_cache
def bias_words():
    """the words of the profanity taxonomy by category, as far as they are plain words"""
    out = collections.defaultdict(list)
    with open(REPO + "/resources/word_based_bias_list.csv", newline="") as f:
        for w in csv.DictReader(f):
            out[w["categorization"]].append(w["word"])
    return out


CATS = ["offensive-minority-reference", "offensive-not-minority", "harmless-minority"]


# the lengths that run_uniq.sh looks for: tokens, characters
LENGTHS = {"pile": ([9, 18, 20, 36], [8194, 201, 35, 100000, 71, 73]), "c4": ([], [192, 515, 434, 499, 322, 86]), "redpajama": ([23, 19, 54, 52, 30, 95, 32, 98, 96, 64, 66], [126, 133, 134, 118])}


def counts(keyname, c, valname="count"):
    return sorted(json.dumps({keyname: k, valname: v}, sort_keys=True) for k, v in c.items())


class MapReduce(ShellProp):
    id = "P11"
    budget = (2400, 80000)
    rule = "one run of one of fifteen analyses (their run.sh, and profanity by taxonomy) over generated files: jobs in a drawn order, mappers or reducer failing or killed, damaged input."
    real = ["wimbd/*/run.sh, run_uniq.sh, map_count.py, map_unique_lengths.py, reduce_count.py of url, scheme, extension and high-level domain counts, sentence lengths, dates, tokens per url, language, pii, profanity, random sample, link checks, sentiment of co-occurring terms",
            "wimbd/utils/utils.py", "bash"]
    stub = ShellProp.stub + ["nltk, uniseg, pycld2, tldextract, requests, spacy, spacytextblob, pandas, profanity_check (small deterministic stand-ins)"]
    KINDS = ["url_counts", "scheme_counts", "extension_counts", "high_level_domain_counts", "sentence_lengths", "uniq", "utterance_dates", "url_per_tok_counts", "language", "pii", "profanity", "profanity_taxonomy",
             "pii", "random_sample", "link_exists", "sentiment_coocurrence"]

    def gen(self, r, i):
        kind = self.KINDS[i % len(self.KINDS)]
        files = []
        for f in range(r.choice([1, 1, 2, 3, 4, 6])):
            rows = []
            for _ in range(r.choice([0, 1, 2, 3, 5, 9])):
                rows.append(self.row(r, kind))
            files.append(rows)
        work = {"kind": kind, "files": files, "rep": 0, "damage": None}
        if kind in ("language", "profanity", "random_sample", "sentiment_coocurrence") and r.random() < 0.12 and any(files):
            work["rep"] = r.choice([999, 1000, 1001, 2000, 2001, 2600])
        if kind == "uniq":
            work["ds"] = r.choice(list(LENGTHS)) if r.random() < 0.9 else "nosuch"
        if kind == "random_sample" and r.random() < 0.5:
            work["fraction"] = r.choice(["1", "1", "1.0", "0"])
        run = gen_jobs(r)
        q = r.random()
        ck = "calm"
        if q < 0.3:
            ck = "fault"
            n = len(files)
            mapper = "map_unique_lengths.py" if kind == "uniq" else "map_count.py"
            z = r.random()
            arg = r.choice([0, 0, 1, 5, 20, 60])
            if z < 0.65:
                f = {"tool": mapper, "job": r.randrange(n), "action": r.choice(["kill", "err", "read"]), "arg": arg}
            elif z < 0.75:
                # killed while it still reads or just before its end
                f = {"tool": mapper, "job": r.randrange(n), "action": "read", "arg": r.choice([0, 30])}
            else:
                f = {"tool": "reduce_count.py", "nth": 0, "action": r.choice(["kill", "err"]), "arg": arg}
            run["faults"] = [f]
        elif q < 0.5:
            ck = "damage"
            f = r.randrange(len(files))
            work["damage"] = {"file": f, "how": r.choice(["cut", "trailer", "crc", "none", "json", "nokey"]), "at": r.randrange(1000)}
            if kind == "high_level_domain_counts":
                work["damage"]["how"] = r.choice(["none", "json"])
            if kind in ("utterance_dates", "random_sample") and work["damage"]["how"] == "nokey":
                work["damage"]["how"] = "json"
        return {"kind": ck, "work": work, "runs": [run]}

    def row(self, r, kind):
        d = {}
        if kind in ("url_counts", "scheme_counts", "extension_counts", "url_per_tok_counts", "link_exists", "high_level_domain_counts", "random_sample"):
            h = r.choice(HOSTS)
            if kind in ("url_counts", "scheme_counts", "extension_counts", "url_per_tok_counts") and r.random() < 0.06:
                # an address without a host, or with a blank in it
                h = r.choice(ODD_HOSTS)
            d.update(s=r.choice(["http", "https", "https", "ftp"]), h=h, p=r.choice(["", "/", "/a", "/x/pic.jpg", "/pic.png", "/P.JPG", "/i.jpeg", "/doc.pdf", "/v1.2/page", "/it.jpg.html"]))
        if kind == "high_level_domain_counts":
            d["n"] = r.choice([1, 2, 7, 120])
        if kind in ("url_per_tok_counts", "sentence_lengths", "uniq"):
            d["t"] = text(r) if kind == "url_per_tok_counts" or r.random() < 0.9 else None
        if kind == "uniq":
            d["t"] = r.choice(["x" * 73, "x" * 35, "x" * 71, " ".join(["ab"] * 9), " ".join(["ab"] * 18), "one\ntwo " * 9, "short", " ".join(["ab"] * 20) + "y" * 12, None, "y" * 192, "y" * 85, "y\n" * 43, " ".join(["z"] * 23), "\n".join(["z"] * 19), "z" * 126, "z" * 117 + "\n", "", "\r\n".join(["ab"] * 9), "a\rb " * 9, "\u2028".join(["x"] * 36)])
        if kind == "utterance_dates":
            k = r.choice(["date", "timestamp", "created", None])
            if k:
                d[k] = r.choice(["2019-04-25T12:57:54Z", "2020-01-01", "2021-12-31T23:59:59Z", "1999-06-01 10:00:00"])
            if r.random() < 0.2:
                d["timestamp"] = "2001-02-03"
        if kind == "language":
            d["t"] = r.choice(["the cat sat", "the dog", "das ist es", "le chat noir", "zzz yyy xxx", "the", "", None, "  ", "bad \x01 text", "LONG", "LONG100000", "LONG99999"])
        if kind == "profanity":
            d["t"] = r.choice(["a nice day. all good", "well damn. fine", "all. is. damn", "nice", "damn. nice", "damn nice", "damn nice. damn. damn nice", "", None, " ", "LONG", "LONG100000", "LONG99999"])
        if kind == "profanity_taxonomy":
            d["t"] = r.choice(["", None, " ", "LONG", "LONG100000", "LONG99999"]) if r.random() < 0.15 else ""
            # the first and the last words of a category more often than others
            d["bias"] = [[r.choice(CATS), r.choice([0, -1, r.randrange(26), r.randrange(300)]), r.randrange(4)] for _ in range(r.choice([0, 1, 1, 2, 4]))]
        if kind == "sentiment_coocurrence":
            d["say"] = [[r.choice(SAY) for _ in range(r.choice([1, 2, 3, 5]))] for _ in range(r.choice([1, 1, 2, 3, 4]))] if r.random() < 0.85 else r.choice([None, "", " ", "LONG", "LONG100000", "LONG99999"])
        if kind == "pii":
            def item():
                t = r.choice(["email", "phone_numbers", "phone_numbers", "IP_addresses", "IP_addresses", "nothing"])
                m = r.choice([None, 0, 1, 2, 3])
                return [t, r.randrange(len(PII[t])), m, r.choice(["before", "after"]), r.choice([0, 0, -10, 1, 30] if m != 3 else [0, 0, -10, 30])]
            d["pii"] = [item() for _ in range(r.choice([0, 1, 1, 2, 4]))]
            d["junk"] = r.choice(list(JUNK)) if r.random() < 0.2 else None
            d["t"] = r.choice([None, "", " "]) if r.random() < 0.1 else r.choice(["500000", "500001"]) if r.random() < 0.01 else r.choice(["plain", "start", "turkish"])
        if kind == "random_sample":
            d["where"] = r.choice(["top", "top", "meta", "no"])
        return d

    def valid(self, c):
        w = c["work"]
        return w["kind"] in self.KINDS and w.get("ds", "pile") in [*LENGTHS, "nosuch"] and w.get("fraction") in (None, "1", "1.0", "0") and w["files"] and (not w["damage"] or w["damage"]["file"] < len(w["files"])) and \
            all(all(len(x) for x in f) or w["kind"] == "utterance_dates" for f in w["files"]) and all(f.get("job", 0) < len(w["files"]) for r in c["runs"] for f in r["faults"]) and \
            all(set(self.need(w["kind"])) <= set(x) and (x.get("h", "a.com") in HOSTS or w["kind"] in ("url_counts", "scheme_counts", "extension_counts", "url_per_tok_counts") and x["h"] in ODD_HOSTS) and x.get("s", "http") in ("http", "https", "ftp") and all(len(p) == 5 and p[0] in PII and 0 <= p[1] < len(PII[p[0]]) and p[2] in (None, 0, 1, 2, 3) and p[3] in ("before", "after") and p[4] in ((0, -10, 30) if p[2] == 3 else (0, -10, 1, 30)) for p in x.get("pii", ())) and \
            x.get("junk") in (None, *JUNK) and ("pii" not in x or x.get("t") in (None, "", " ", "500000", "500001", "plain", "start", "turkish")) and all(len(b) == 3 and b[0] in CATS for b in x.get("bias", ())) for f in w["files"] for x in f) and \
            all(re.fullmatch(r"\d{4}-\d\d-\d\d.*", v) for f in w["files"] for x in f for k, v in x.items() if k in ("date", "timestamp", "created")) and \
            all(not isinstance(x.get("say"), list) or all(y in SAY for z in x["say"] for y in z) for f in w["files"] for x in f) and all((x.get("p") or "/").startswith("/") and x.get("where", "top") in ("top", "meta", "no") for f in w["files"] for x in f)

    def need(self, kind):
        url = ("s", "h", "p")
        return {"high_level_domain_counts": url + ("n",), "url_per_tok_counts": url + ("t",), "sentence_lengths": ("t",), "uniq": ("t",), "utterance_dates": (), "language": ("t",), "profanity": ("t",),
                "pii": ("pii", "t"), "profanity_taxonomy": ("t", "bias"), "sentiment_coocurrence": ("say",), "random_sample": url + ("where",)}.get(kind, url)

    def doc(self, kind, d, i):
        u = f"{d['s']}://{d['h']}{d['p']}" if "h" in d else None
        if kind == "random_sample":
            u += f"?{i}"
            return {"top": {"url": u}, "meta": {"metadata": {"url": u}}, "no": {"x": 1}}[d["where"]], u
        o = {"id": str(i)}
        if u:
            o["url"] = u
        if "n" in d:
            o["count"] = d["n"]
        if "t" in d:
            o["text"] = ("long " * 20000 + "x" * 10)[:int(d["t"][4:] or 100010)] if (d["t"] or "").startswith("LONG") else d["t"]
        for k in ("date", "timestamp", "created"):
            if k in d:
                o[k] = d[k]
        if "say" in d:
            o["text"] = ("he is good " * 10000)[:int(d["say"][4:] or 110000)] if isinstance(d["say"], str) and d["say"].startswith("LONG") else ". ".join(" ".join(x) for x in d["say"]) if isinstance(d["say"], list) else d["say"]
        if "pii" in d:
            o["text"] = pii_text(d)[0]
        if d.get("bias") and not d["t"]:
            words = bias_words()
            o["text"] = "x" + "".join(" zzz " + self.biased(words, b) for b in d["bias"]) + " zzz"
        return o, u

    def biased(self, words, b):
        cat, n, how = b
        ws = [x for x in words[cat] if re.match(r"\w", x) and re.search(r"[\w?*]$", x)]
        x = ws[n % len(ws)]
        # the patterns that the words are
        x = x.replace("\\w*", "ish").replace("?", "")
        return [x, x.upper(), x + ".", f"({x})"][how]

    def execute(self, ctx):
        w = ctx.case["work"]
        kind = w["kind"]
        files, docs, urls = [], [], []
        ext = ".jsonl" if kind == "high_level_domain_counts" else ".json.gz"
        for f, rows in enumerate(w["files"]):
            if w["rep"] and rows:
                short = [d for d in rows if not str(d.get("t")).startswith("LONG") and not str(d.get("say")).startswith("LONG")] or rows
                rows = [short[j % len(short)] if j % 400 else rows[0] for j in range(w["rep"] if f == 0 or len(rows) > 3 else len(rows))]
            full = [self.doc(kind, d, f * 100000 + j) for j, d in enumerate(rows)]
            docs.append([(d, x[0]) for d, x in zip(rows, full)])
            urls += [x[1] for x in full]
            ls = jl([x[0] for x in full])
            dm = w["damage"] if w["damage"] and w["damage"]["file"] == f else None
            if dm and dm["how"] == "json":
                ls.insert(dm["at"] % (len(ls) + 1), "{\"text\": \n")
            if dm and dm["how"] == "nokey":
                ls.insert(dm["at"] % (len(ls) + 1), "{\"other\": 1}\n")
            data = gz(ls) if ext.endswith("gz") else "".join(ls).encode()
            data = damage(data, dm["how"], dm["at"]) if dm else data
            if data is not None:
                ctx.write(f"in/f{f}{ext}", data)
            files.append(ctx.path(f"in/f{f}{ext}"))
        dirname = "sentence_lengths" if kind == "uniq" else kind
        argv = ["/bin/bash", f"{REPO}/wimbd/{dirname}/" + ("run_uniq.sh" if kind == "uniq" else "run.sh")] + ([w.get("ds", "pile")] if kind == "uniq" else []) + files
        if w.get("fraction") is not None:
            p = f"{REPO}/wimbd/random_sample"
            argv = ["/bin/bash", "-c", f'set -euo pipefail; parallel "python {p}/map_count.py --in_file {{}} --sample_fraction {w["fraction"]}" ::: "$@" | python {p}/reduce_count.py', "-"] + files
        cwd = None
        if kind == "profanity_taxonomy":
            # the same pipeline with the other classification; it finds its words below the current directory
            p = f"{REPO}/wimbd/profanity"
            argv = ["/bin/bash", "-c", f'set -euo pipefail; parallel "python {p}/map_count.py --in_file {{}} --model taxonomy" ::: "$@" | python {p}/reduce_count.py', "-"] + files
            cwd = REPO
        for k in range(len(ctx.case["runs"])):
            code, out, err = shell.run(ctx, argv, k, cwd=cwd)
            ctx.probes.add(kind)
            # the reducer of sentiments refuses an empty result
            nothing = kind == "sentiment_coocurrence" and not any(self.sentiments(docs))
            unknown = kind == "uniq" and w.get("ds") == "nosuch"
            if not self.judge_exit(ctx, k, code, err, bool(w["damage"]) or nothing or unknown):
                continue
            if unknown:
                bad("unknown_dataset", f"run {k} of {kind} ends with status 0 although it knows no lengths of that dataset: {out[-200:]}")
            if w["damage"]:
                bad("damage_ignored", f"{kind}: file {w['damage']['file']} is damaged ({w['damage']['how']}) but the run ends with status 0")
            self.judge(ctx, kind, docs, out, k, urls, err)

    def sentiments(self, docs):
        total, number = collections.Counter(), collections.Counter()
        for d, o in (x for f in docs for x in f):
            for sent in d["say"] if isinstance(d["say"], list) else [o["text"].split()] if d["say"] == "LONG99999" else ():
                said = " ".join(sent)
                v = sum({"good": 0.5, "great": 1.0, "bad": -0.25, "awful": -0.75}.get(x, 0) for x in sent)
                terms = ["male" for t in ("he", "him", "his", "himself") if t in sent] + ["female" for t in ("she", "her", "hers", "herself") if t in sent] + \
                    [t for t in ("muslim", "hindu") if t in sent or t + "s" in sent] + [t.split()[0] for t in ("asian", "latino", "white man", "white woman", "black man", "black woman") if t in said]
                for t in terms:
                    total[t] += v
                    number[t] += 1
        return total, number

    def judge(self, ctx, kind, docs, out, k, urls, err):
        rows = [d for f in docs for d in f]
        C = collections.Counter
        lines = out.decode().splitlines()
        if kind == "uniq":
            if not lines or lines[0] != ctx.case["work"].get("ds", "pile"):
                bad("totals", f"run {k}: first line is {lines[:1]}")
            lines = lines[1:]
        if kind == "random_sample":
            got = C()
            for x in lines:
                got[json.loads(x)["url"]] += 1
            have = C(u if d["where"] in ("top", "meta") else "" for (d, o), u in zip(rows, urls))
            if got - have:
                bad("totals", f"run {k}: the sample holds {list((got - have).items())[:3]}, which the input does not")
            n = len(rows)
            f = ctx.case["work"].get("fraction")
            if f is not None:
                if got != (have if float(f) else C()):
                    bad("totals", f"run {k}: a sample of {f} of all documents misses {list((have - got).items())[:3]}, has {sum(got.values())} of {n}")
            elif n >= 2000 and not n * 0.002 <= sum(got.values()) <= n * 0.03:
                bad("totals", f"run {k}: {sum(got.values())} of {n} documents are sampled, not about one in a hundred")
            return
        got = sorted(json.dumps(json.loads(x), sort_keys=True) for x in lines)
        if kind == "sentiment_coocurrence":
            total, number = self.sentiments(docs)
            exp = [json.dumps({t: total[t] / n for t, n in number.items()}, sort_keys=True)]
        if kind == "url_counts":
            exp = counts("url", C(d["h"] for d, o in rows))
        elif kind == "scheme_counts":
            exp = sorted(json.dumps({a: b}) for a, b in C(d["s"] for d, o in rows).items())
        elif kind == "extension_counts":
            exp = counts("ext", C({"/x/pic.jpg": "jpg", "/pic.png": "png", "/P.JPG": "JPG", "/i.jpeg": "jpeg"}.get(d["p"], "other") for d, o in rows))
        elif kind == "high_level_domain_counts":
            c = C()
            for d, o in rows:
                c["co.uk" if d["h"] == "c.co.uk" else re.sub(r":.*", "", d["h"]).rsplit(".", 1)[-1]] += d["n"]
            exp = counts("high_level_domain", c)
        elif kind == "sentence_lengths":
            c = C()
            for d, o in rows:
                if d["t"] is None:
                    c["text is None"] += 1
                else:
                    c[f"chars {len(d['t'])}"] += 1
                    c[f"tokens {len(d['t'].split())}"] += 1
            exp = counts("key", c)
        elif kind == "uniq":
            c = C()
            for d, o in rows:
                t = d["t"]
                if t is None:
                    continue
                n = len(t.split())
                if n in LENGTHS[ctx.case["work"].get("ds", "pile")][0]:
                    c[f"{n} tok / " + t.replace("\n", "(newline)")] += 1
                if len(t) in LENGTHS[ctx.case["work"].get("ds", "pile")][1]:
                    c[f"{len(t)} char / " + t.replace("\n", "(newline)")] += 1
            m = C()
            for a, b in c.items():
                m[a.strip()] += b
            exp = counts("key", m)
        elif kind == "utterance_dates":
            exp = counts("year", C(next((d[x][:4] for x in ("date", "timestamp", "created") if x in d), "None") for d, o in rows))
        elif kind == "url_per_tok_counts":
            c = C()
            for d, o in rows:
                c[d["h"]] += len(d["t"].split())
            exp = counts("url", c)
        elif kind == "language":
            c = C()
            for d, o in rows:
                t = d["t"]
                if t in ("LONG", "LONG100000"):
                    c["long"] += 1
                elif t and t.strip() and "\x01" not in t:
                    code = {"the": "en", "das": "de", "le": "fr"}.get(t.split()[0], "un")
                    c[code if len(t) > 4 else "un"] += 1
            exp = counts("language", c)
        elif kind == "pii":
            exp = counts("pii", C(p for d, o in rows for p in pii_text(d)[1]))
        elif kind == "profanity":
            c = C()
            for d, o in rows:
                t = d["t"]
                if t in ("LONG", "LONG100000"):
                    c["long"] += 1
                elif t and t.strip():
                    c["profane" if any("damn" in x and "nice" not in x for x in t.split(".")) else "not profane"] += 1
            exp = counts("profanity", c)
        elif kind == "profanity_taxonomy":
            c = C()
            words = {x: re.compile(r"\b(?:" + "|".join(w) + r")\b", re.IGNORECASE) for x, w in bias_words().items()}
            for d, o in rows:
                t = o.get("text")
                if t and len(t) > 99999:
                    c["long"] += 1
                elif t and t.strip():
                    n = {x: len(words[x].findall(t)) for x in CATS}
                    c["profane" if n[CATS[0]] or n[CATS[1]] else "not profane"] += 1
                    for x in CATS:
                        c[x] += n[x]
            exp = counts("profanity", +c)
        elif kind == "link_exists":
            exp = counts("alive", C(str(not any(b in d["h"] for b in ("gone", "missing", "broken"))) for d, o in rows))
        if got != exp:
            bad("totals", f"run {k} of {kind} exits 0 with {[x for x in got if x not in exp][:4]}, expected {[x for x in exp if x not in got][:4]}" + (f" (faults: {ctx.worlds[-1].fired})" if ctx.worlds[-1].fired else ""))


# ------------------------------------------------------------------ P12 overlaps

def h(t):
    return "None" if t is None else hashlib.md5(t.encode()).hexdigest()


def url_of(t, n, odd):
    """a url for a text; with odd, some are empty or have blanks"""
    m = hashlib.md5(t.encode()).hexdigest()
    u = "http://h/" + m[:n]
    if odd == 2:
        # alike but for the case or what some orders ignore
        return ["http://h/Pair", "http://h/pair", "http://h/pair-0", "http://h/pair0", u][int(m[-2:], 16) % 5]
    return {0: "http://h/a b/" + m[:n], 1: " " + u, 2: u + " ", 3: "http://h/a  b\t" + m[:n], 4: "", 5: "7 " + u}.get(int(m[-2:], 16) % 9, u) if odd else u


def counted(b):
    """[(key, count)] of the lines of uniq -c"""
    out = []
    for x in b.decode().split("\n")[:-1]:
        n, _, key = x.lstrip(" ").partition(" ")
        out.append((key, int(n)))
    return out


class Overlaps(ShellProp):
    id = "P12"
    budget = (1600, 60000)
    rule = "one run of one of the overlap tools over generated files: jobs in a drawn order; mappers, native tools or later stages failing or killed; damaged input."
    real = ["wimbd/text_and_url_overlaps/decontaminate.py, deduplicate.py and all of helper_scripts/", "wimbd/utils/utils.py", "bash, sort, uniq, sed, awk, cut, jq, gzip"]
    stub = ShellProp.stub + ["multiprocessing.Pool (forked workers that get their tasks in a seeded order)", "tqdm", "smart_open"]
    KINDS = ["hashes", "urls", "combos", "dupcounts", "examples", "urlexamples", "dedup", "dedup", "decon", "decon", "keys"]

    def gen(self, r, i):
        kind = self.KINDS[i % len(self.KINDS)]
        nt = r.choice([1, 2, 3, 5, 8])
        texts = list(dict.fromkeys(text(r) for _ in range(nt)))
        if r.random() < 0.3:
            texts.append(None)
        def shards(lo=1):
            return [[r.randrange(len(texts)) for _ in range(r.choice([0, 1, 2, 3, 5, 9]))] for _ in range(r.choice([1, 1, 2, 3, 4]))]
        work = {"kind": kind, "texts": texts, "a": shards(), "b": shards(), "meta": r.random() < 0.5, "k": r.choice([1, 2, 3, 30]), "given": r.random() < 0.2, "bonly": r.random() < 0.2, "damage": None,
                "sets": [sorted(r.sample(range(len(texts)), r.randrange(len(texts) + 1))) for _ in range(r.choice([1, 2, 2, 3, 3, 4]))], "old": r.random() < 0.3, "odd": r.choice([0, 0, 0, 1, 1, 2])}
        run = gen_jobs(r)
        ck = "calm"
        q = r.random()
        arg = r.choice([0, 0, 1, 20, 33, 60, 100])
        nj = len(work["a"])
        tools = {"hashes": ["get_text_hashes.py", "get_text_hashes.py", "sort", "uniq"], "urls": ["jq", "jq", "gzip", "sort", "uniq", "zcat", "head"], "combos": ["sort", "uniq", "sed", "awk", "cut"], "keys": ["sed", "cut", "awk"],
                 "dupcounts": ["get_duplicate_counts.py"], "examples": ["get_examples.py", "get_examples.py", "head"], "urlexamples": ["get_examples.py", "get_examples.py", "head"],
                 "dedup": ["get_text_hashes.py", "get_text_hashes.py", "sort", "uniq", "sed", "awk", "cut", "deduplicate_by_hash.py", "pv"],
                 "decon": ["get_text_hashes.py", "get_text_hashes.py", "sort", "uniq", "sed", "cut", "deduplicate_by_hash.py"]}[kind]
        if q < 0.4:
            ck = "fault"
            t = r.choice(tools)
            f = {"tool": t, "action": r.choice(["kill", "err"] + (["crash"] if kind in ("dedup", "decon") else [])), "arg": arg}
            if t in ("get_text_hashes.py", "gzip") or (t == "jq" and r.random() < 0.7):
                f["job"] = r.randrange(nj)
            elif t == "jq":
                f["nth"] = r.randrange(3)
            else:
                f["nth"] = r.choice([0, 0, 1, 2]) if kind == "combos" else 0
            if t.endswith(".py") and r.random() < 0.4:
                f["action"] = r.choice(["read", "file", "filekill"] + (["filecrash"] if kind in ("dedup", "decon") else []))
                f["arg"] = r.choice([0, 1, 30, 100])
            if t == "zcat":
                # before it has written a line, or it may be stopped by head first
                f["arg"] = r.choice([0, 1, 5])
            if t == "pv":
                f = {"tool": "cut", "nth": 0, "action": "kill", "arg": arg}
            run["faults"] = [f]
        elif q < 0.55 and kind in ("hashes", "urls", "examples", "dedup", "decon"):
            ck = "damage"
            work["damage"] = {"file": r.randrange(nj), "how": r.choice(["cut", "trailer", "crc", "none", "json"]), "at": r.randrange(1000)}
        return {"kind": ck, "work": work, "runs": [run, gen_jobs(r)] if ck == "fault" else [run]}

    def valid(self, c):
        w = c["work"]
        n = len(w["texts"])
        return w["kind"] in self.KINDS and w["a"] and w["b"] and n > 0 and all(t is None or t == t.strip() for t in w["texts"]) and len(set(w["texts"])) == n and all(x < n for s in w["a"] + w["b"] + w["sets"] for x in s) and \
            (not w["damage"] or w["damage"]["file"] < len(w["a"])) and all(f.get("job", 0) < len(w["a"]) for r in c["runs"] for f in r["faults"]) and w["sets"] and w["k"] > 0

    def url(self, w, t):
        return "null" if t is None else url_of(t, 6, w.get("odd"))

    def put(self, ctx, sub, shards, w, url=False):
        names = []
        for s, xs in enumerate(shards):
            rows = []
            for j, x in enumerate(xs):
                t = w["texts"][x]
                if url:
                    u = None if t is None else self.url(w, t)
                    rows.append({"metadata": {"url": u}} if w["meta"] else {"url": u})
                else:
                    rows.append({"id": f"{sub}{s}-{j}", "text": t, "source": "S"})
            ls = jl(rows)
            dm = w["damage"] if sub == "a" and w["damage"] and w["damage"]["file"] == s else None
            if dm and dm["how"] == "json":
                ls.insert(dm["at"] % (len(ls) + 1), "{\"text\": \n")
            data = gz(ls)
            if dm:
                data = damage(data, dm["how"], dm["at"])
            if data is not None:
                ctx.write(f"{sub}/s{s}.jsonl.gz", data)
            names.append(ctx.path(f"{sub}/s{s}.jsonl.gz"))
        return names

    def execute(self, ctx):
        w = ctx.case["work"]
        kind = w["kind"]
        env = {"TEXT_AND_URL_OVERLAPS": T}
        X = w["texts"]
        C = collections.Counter
        H = T + "/helper_scripts/"
        allA = [X[x] for s in w["a"] for x in s]
        K = (lambda t: self.url(w, t)) if w.get("odd") or kind == "urlexamples" else h
        for k in range(len(ctx.case["runs"])):
            if kind in ("hashes", "urls"):
                if kind == "urls" and allA and allA[0] is None:
                    # nothing tells where the urls are
                    return
                files = self.put(ctx, "a", w["a"], w, kind == "urls")
                code, out, err = shell.run(ctx, ["/bin/bash", H + ("run_get_text_hashes.sh" if kind == "hashes" else "run_get_urls.sh")] + files, k, env)
                if not self.judge_exit(ctx, k, code, err, bool(w["damage"])):
                    continue
                self.whole(ctx, w, k)
                exp = C(h(t) if kind == "hashes" else self.url(w, t) for t in allA)
                got = counted(out)
                if dict(got) != dict(exp) or len(got) != len(exp) or [g[0] for g in got] != sorted(g[0] for g in got):
                    bad("counts", f"run {k} of {kind} exits 0 with {got}, expected {sorted(exp.items())}" + self.faults(ctx))
            elif kind in ("dedup", "decon"):
                self.dedup(ctx, w, k, env)
            elif kind == "combos":
                names = ["d%d" % j for j in range(len(w["sets"]))]
                for n, s in zip(names, w["sets"]):
                    ctx.write(f"u/{n}.txt", "".join(x + "\n" for x in sorted({K(X[x]) for x in s})))
                if w["old"] and k == 0:
                    for n in range(2, len(names) + 1):
                        for c in itertools.combinations(names, n):
                            ctx.write("u/" + "_and_".join(c) + ".txt", "left over\n")
                code, out, err = shell.run(ctx, ["python", H + "run_combinations.py", "--sorted_uniq_dir", ctx.path("u"), "--datasets"] + names, k, env)
                if not self.judge_exit(ctx, k, code, err, False):
                    continue
                for n in range(2, len(names) + 1):
                    for c in itertools.combinations(range(len(names)), n):
                        f = "u/" + "_and_".join(names[j] for j in c) + ".txt"
                        exp = sorted(set.intersection(*[{K(X[x]) for x in w["sets"][j]} for j in c]))
                        got = ctx.read(f)
                        got = ["<missing>"] if got is None else got.decode().split("\n")[:-1]
                        if got != exp:
                            bad("overlap", f"run {k} exits 0 but {f} holds {got}, expected {exp}" + self.faults(ctx))
            elif kind == "keys":
                c = C(map(K, allA))
                body = "".join("%7d %s\n" % (n, t) for t, n in sorted(c.items()))
                ctx.write("counts.txt", body)
                for s in ("get_just_keys.sh", "get_duplicate_keys.sh", "remove_count.sh"):
                    cmd = f"exec {H}{s} {ctx.path('counts.txt')}" if s == "remove_count.sh" else f"exec {H}{s} < {ctx.path('counts.txt')}"
                    code, out, err = shell.run(ctx, ["/bin/bash", "-c", cmd], k, env)
                    if not self.judge_exit(ctx, k, code, err, False):
                        continue
                    exp = sorted(t for t, n in c.items() if n > 1 or s != "get_duplicate_keys.sh")
                    if out.decode().split("\n")[:-1] != exp:
                        bad("keys", f"run {k}: {s} exits 0 with {out.decode()!r}, expected {exp}" + self.faults(ctx))
            elif kind == "dupcounts":
                exp = {}
                for j, s in enumerate(w["a"]):
                    c = C(K(X[x]) for x in s)
                    ctx.write(f"c/d{j}.txt", "".join("%7d %s\n" % (n, t) for t, n in sorted(c.items())))
                    exp[f"d{j}"] = {"duplicates": sum(n for n in c.values() if n > 1), "total": len(s), "uniq_duplicates": sum(n > 1 for n in c.values()), "uniq_total": len(c)}
                code, out, err = shell.run(ctx, ["python", H + "get_duplicate_counts.py", "--sorted_uniq_count_dir", ctx.path("c"), "--out_file", ctx.path("dup.json"), "--datasets"] + list(exp), k, env)
                if not self.judge_exit(ctx, k, code, err, False):
                    continue
                got = json.loads(ctx.read("dup.json"))
                if got != exp:
                    bad("counts", f"run {k} exits 0 with {got}, expected {exp}" + self.faults(ctx))
            else:
                files = self.put(ctx, "a", w["a"], w)
                url = kind == "urlexamples"
                c = C(map(K if url else h, allA))
                top = sorted(((n, t) for t, n in c.items()), reverse=True)
                ctx.write("sorted.txt", "".join("%7d %s\n" % (n, t) for n, t in top))
                code, out, err = shell.run(ctx, ["/bin/bash", H + "run_get_examples.sh", ctx.path("a") + "/*.gz", ctx.path("ex.jsonl"), "--count_url_file" if url else "--count_hash_file", ctx.path("sorted.txt"),
                                                 str(w["k"])], k, env)
                if not self.judge_exit(ctx, k, code, err, bool(w["damage"])):
                    continue
                got = [json.loads(x) for x in ctx.read("ex.jsonl").decode().splitlines()]
                if [int(g["count"]) for g in got] != [n for n, _ in top[:w["k"]]]:
                    bad("examples", f"run {k}: the counts of the examples are {[g['count'] for g in got]}, expected {[n for n, _ in top[:w['k']]]}" + self.faults(ctx))
                byh = {h(t): ("None" if t is None else t) for t in X}
                exp = {(t if url else byh[t], n) for n, t in top[:w["k"]]}
                if {(g["text"], int(g["count"])) for g in got} != exp or (not url and any(byh.get(g["hash"]) != g["text"] for g in got)):
                    bad("examples", f"run {k}: examples {got}, expected {exp}" + self.faults(ctx))

    def faults(self, ctx):
        return f" (faults: {ctx.worlds[-1].fired})" if ctx.worlds[-1].fired else ""

    def whole(self, ctx, w, k):
        if w["damage"]:
            bad("damage_ignored", f"run {k} of {w['kind']}: file {w['damage']['file']} is damaged ({w['damage']['how']}) but the run ends with status 0")

    def dedup(self, ctx, w, k, env):
        kind = w["kind"]
        X = w["texts"]
        A = self.put(ctx, "a", w["a"], w)
        B = self.put(ctx, "b", w["b"], w)
        os.makedirs(ctx.path("out"), exist_ok=True)
        os.makedirs(ctx.path("t"), exist_ok=True)
        C = collections.Counter
        c = C(X[x] for s in w["a"] for x in s)
        argv = ["python", T + ("/deduplicate.py" if kind == "dedup" else "/decontaminate.py"), "--out_dir", ctx.path("out"), "--tmp_dir", ctx.path("t")]
        if kind == "dedup":
            block = {t for t, n in c.items() if n > 1}
            argv += ["--in_files"] + A
            target, names = w["a"], "a"
        else:
            block = set(c)
            argv += ["--in_files2"] + B
            if w["given"]:
                ctx.write("given.txt", "".join(h(t) + "\n" for t in block))
                argv += ["--blocklist", ctx.path("given.txt")]
            else:
                argv += ["--in_files1"] + A
            target, names = w["b"], "b"
        bonly = w["bonly"] and not (kind == "decon" and w["given"])
        if bonly:
            argv.append("--build_blocklist_only")
        blockfile = "t/duplicates_hashes.txt" if kind == "dedup" else "t/blocklist.txt"
        if w["old"] and k == 0:
            ctx.write(blockfile, "0123\n")
        code, out, err = shell.run(ctx, argv, k, env)
        harmed = bool(w["damage"]) and not (kind == "decon" and w["given"])
        if not self.judge_exit(ctx, k, code, err, harmed):
            return
        if harmed:
            self.whole(ctx, w, k)
        if not (kind == "decon" and w["given"]):
            got = (ctx.read(blockfile) or b"").decode().split()
            if got != sorted(h(t) for t in block):
                bad("blocklist", f"run {k} of {kind} exits 0 with the blocklist {got}, expected {sorted(h(t) for t in block)}" + self.faults(ctx))
        if bonly:
            if any(f.startswith("out/") for f in ctx.files()) and k == 0:
                bad("blocklist", f"run {k}: only the blocklist was asked for but documents were written")
            return
        free = C()
        for s, xs in enumerate(target):
            b = ctx.read(f"out/s{s}.jsonl.gz")
            if b is None:
                bad("documents", f"run {k} of {kind} exits 0 without an output for shard {s}" + self.faults(ctx))
            try:
                rows = [json.loads(x) for x in gzip.decompress(b).decode().splitlines()]
            except (EOFError, ValueError, OSError) as e:
                bad("documents", f"run {k} of {kind} exits 0 but the output of shard {s} cannot be read: {e}" + self.faults(ctx))
            docs = [(f"{names}{s}-{j}", X[x]) for j, x in enumerate(xs) if X[x] is not None]
            if [r["id"] for r in rows] != [d[0] for d in docs]:
                bad("documents", f"run {k} of {kind}: shard {s} lists {[r['id'] for r in rows]} instead of {[d[0] for d in docs]}" + self.faults(ctx))
            for r, (_, t) in zip(rows, docs):
                if kind == "decon" or t not in block:
                    if r["contaminated"] != (t in block):
                        bad("documents", f"run {k} of {kind} exits 0 but {r['id']} ({t!r}) is {'' if r['contaminated'] else 'not '}marked" + self.faults(ctx))
                elif not r["contaminated"]:
                    free[t] += 1
        if kind == "dedup":
            for t in block:
                if t is not None and free[t] != 1:
                    bad("documents", f"run {k} of dedup exits 0 but {free[t]} copies of {t!r} are unmarked" + self.faults(ctx))


# ------------------------------------------------------------------ P16 downloading The Stack

class StackList(ShellProp):
    id = "P16"
    budget = (900, 50000)
    rule = "download.sh over a generated list of urls, repeated after every failure until it ends well: jobs in a drawn order, files that cannot be reached, downloads failing or killed."
    real = ["preparation/stack/download.sh, download_url.sh, download_url.py, auth_utils.py", "bash"]
    stub = ShellProp.stub + ["fsspec (a web kept in a file)", "pandas (a table of rows)"]

    def gen(self, r, i):
        work = {"files": [[r.choice(["c", "common-lisp", "c++"]), n, r.choice([1, 1, 2, 5, 200])] for n in range(r.choice([1, 2, 3, 4]))], "have": [], "down": []}
        for j in range(len(work["files"])):
            q = r.random()
            if q < 0.15:
                work["have"].append([j, "empty"])
            elif q < 0.3:
                work["have"].append([j, "done"])
        ck, runs = "calm", [gen_jobs(r)]
        if r.random() < 0.6:
            ck, runs = "fault", []
            for _ in range(r.choice([1, 1, 2])):
                x = gen_jobs(r)
                a = r.choice(["kill", "err", "file", "file", "crash", "filekill", "filecrash"])
                x["faults"] = [{"tool": "download_url.py", "job": r.randrange(len(work["files"])), "action": a, "arg": r.choice([0, 1, 10, 40, 200])}] if r.random() < 0.7 else []
                if r.random() < 0.2:
                    x["faults"].append({"tool": r.choice(["cat", "cat", "wc", "dirname", "basename"]), "nth": r.choice([0, 0, 1]), "action": r.choice(["kill", "err"]), "arg": r.choice([0, 1, 100, 120, 200])})
                x["down"] = [j for j in range(len(work["files"])) if r.random() < 0.2]
                q = r.random()
                if q < 0.12:
                    x["lacks"] = r.choice(["token", "empty token", "list"])
                runs.append(x)
            runs.append(gen_jobs(r))
        return {"kind": ck, "work": work, "runs": runs}

    def valid(self, c):
        n = len(c["work"]["files"])
        return n and len({f[1] for f in c["work"]["files"]}) == n and all(f[2] > 0 and f[0] for f in c["work"]["files"]) and all(j < n for j, _ in c["work"]["have"]) and \
            all(f.get("job", 0) < n for r in c["runs"] for f in r["faults"]) and all(j < n for r in c["runs"] for j in r.get("down", ()))

    def execute(self, ctx):
        w = ctx.case["work"]
        urls, rows, rel = [], {}, {}
        for lang, n, k in w["files"]:
            u = f"https://huggingface.co/datasets/bigcode/the-stack/resolve/v1.2/data/{lang}/train-{n:05d}-of-00009.parquet"
            urls.append(u)
            rows[u] = [{"hexsha": f"h{n}-{j}", "content": f"line {mix(n, j) % 9999}\n" * (j % 3), "lang": "Common Lisp", "size": j} for j in range(k)]
            rel[u] = f"out/{lang}/train-{n:05d}-of-00009.jsonl.gz"
        done = gz(jl([{"id": "kept"}]))
        kept = set()
        for j, what in w["have"]:
            ctx.write(rel[urls[j]], done if what == "done" else b"")
            if what == "done":
                kept.add(urls[j])
        ctx.write("urls.txt", "".join(u + "\n" for u in urls))
        for k, r in enumerate(ctx.case["runs"]):
            ctx.write("web.json", json.dumps({u: "down" if j in r.get("down", ()) else rows[u] for j, u in enumerate(urls)}))
            ctx.write("web.log", "")
            before = {u for u in urls if ctx.read(rel[u])}
            lacks = r.get("lacks")
            code, out, err = shell.run(ctx, ["/bin/bash", "./download.sh", ctx.path("nourls.txt" if lacks == "list" else "urls.txt"), ctx.path("out")], k,
                                       {} if lacks == "token" else {"HF_TOKEN": ""} if lacks == "empty token" else {"HF_TOKEN": "t"}, cwd=REPO + "/preparation/stack")
            again = before & set(ctx.read("web.log").decode().split())
            if again:
                bad("repeated", f"run {k} downloads {sorted(again)} although their files are there")
            if not self.judge_exit(ctx, k, code, err, bool(r.get("down") or lacks)):
                continue
            for u in urls:
                b = ctx.read(rel[u])
                if b is None:
                    bad("rows", f"run {k} exits 0 without {rel[u]}")
                if u in kept:
                    if b != done:
                        bad("rows", f"run {k} changes {rel[u]}, which was there already")
                    continue
                try:
                    got = [(x.get("id"), x.get("text")) for x in (json.loads(y) for y in gzip.decompress(b).decode().splitlines())]
                except (EOFError, ValueError, OSError) as e:
                    bad("rows", f"run {k} exits 0 but {rel[u]} cannot be read: {e}")
                if got != [(x["hexsha"], x["content"]) for x in rows[u]]:
                    bad("rows", f"run {k} exits 0 but {rel[u]} holds {len(got)} of {len(rows[u])} rows, or other rows")


# ------------------------------------------------------------------ P17 the overlap analysis of several datasets

class OverlapAnalysis(ShellProp):
    id = "P17"
    budget = (640, 30000)
    rule = "run_analysis.sh over generated datasets, repeated (over what the earlier runs left) after every failure: programs failing or killed anywhere, the whole pipeline killed, documents added between runs, damaged shards."
    real = ["wimbd/text_and_url_overlaps/run_analysis.sh and all of helper_scripts/ it uses", "wimbd/utils/utils.py", "bash, sort, uniq, sed, awk, cut, head, wc, ls, cat, jq, gzip"]
    stub = ShellProp.stub + ["multiprocessing.Pool (forked workers that get their tasks in a seeded order)", "tqdm", "smart_open"]
    TOOLS = ["sort", "sort", "sort", "uniq", "jq", "jq", "jq", "cat", "ls", "ls", "wc", "wc", "head", "head", "sed", "sed", "cut", "awk", "get_examples.py", "get_duplicate_counts.py", "run_combinations.py", "parallel", "zcat"]

    def gen(self, r, i):
        mode = r.choice(["text", "text", "url"])
        heavy = r.random() < 0.1
        nt = r.choice([5, 45, 45] if heavy else [1, 2, 3, 5, 8, 8, 45])
        texts = list(dict.fromkeys(text(r) if nt < 40 else f"doc {j} {text(r)}" for j in range(nt)))
        if r.random() < 0.3:
            texts.append(None)
        sets = []
        for _ in range(r.choice([1, 2, 2, 3, 3, 4])):
            own = [x for x in range(len(texts)) if r.random() < 0.7]
            if nt > 40:
                sets.append([[x for x in own for _ in range(r.choice([1, 1, 2, 3]))]])
            else:
                sets.append([[r.choice(own) for _ in range(r.choice([0, 1, 2, 3, 5, 9]))] if own else [] for _ in range(r.choice([1, 1, 2, 3]))])
        work = {"mode": mode, "texts": texts, "sets": sets, "meta": r.random() < 0.4, "damage": None, "old": r.random() < 0.15, "odd": r.choice([0, 0, 1, 2])}
        runs, ck = [gen_jobs(r)], "calm"
        q = r.random()
        if q < 0.65:
            ck, runs = "fault", []
            for _ in range(r.choice([1, 1, 2])):
                x = gen_jobs(r)
                x["faults"] = [self.fault(r, work)]
                runs.append(x)
            runs.append(gen_jobs(r))
        elif q < 0.75:
            ck = "damage"
            work["damage"] = {"set": r.randrange(len(sets)), "how": r.choice(["cut", "trailer", "crc", "json"]), "at": r.randrange(1000)}
        else:
            runs += [gen_jobs(r) for _ in range(r.choice([0, 1, 1]))]
        if heavy:
            # every document stands for so many
            work["weight"], work["sets"], work["damage"] = r.choice([4 * 10 ** 6, 4 * 10 ** 6, 4 * 10 ** 9]), work["sets"][:1], None
            ck, runs = "calm", [gen_jobs(r)]
        for x in runs[:-1]:
            # in this run these documents are replaced by others
            x["swap"] = [j for j in range(len(texts)) if r.random() < 0.4] if r.random() < 0.35 else []
            x["without"] = r.randrange(len(sets)) if r.random() < 0.15 else None
        return {"kind": ck, "work": work, "runs": runs}

    def fault(self, r, work):
        t = r.choice(self.TOOLS + (["gzip", "gzip", "zcat"] if work["mode"] == "url" else ["get_text_hashes.py"] * 3))
        f = {"tool": t, "action": r.choice(["kill", "err", "crash", "crash"]), "arg": r.choice([0, 0, 1, 5, 20, 33, 60, 100, 300])}
        n = len(work["sets"])
        many = sum(len(s) for s in work["sets"])
        top = {"sort": 2 * n + 2 ** n - n - 1, "uniq": 2 ** n - 1, "jq": 3 if work["mode"] == "text" else 3 + 2 * n + many, "cat": 3, "ls": 2, "wc": 2 ** n, "head": n if work["mode"] == "text" else 2 * n, "sed": 2 ** n,
               "cut": 2 ** n, "awk": 2 ** n, "get_text_hashes.py": many, "gzip": many, "zcat": n, "get_examples.py": n, "parallel": n + 3}.get(t, 1)
        if t == "gzip":
            f["job"] = r.randrange(max(len(s) for s in work["sets"]))
        else:
            f["nth"] = r.randrange(max(1, top))
        if t == "zcat":
            # before it has written a line, or it may be stopped by head first
            f["arg"] = r.choice([0, 1, 5])
        if t.endswith(".py") and t != "run_combinations.py" and r.random() < 0.4:
            f["action"] = r.choice(["read", "file", "filekill", "filecrash"])
            f["arg"] = r.choice([0, 1, 30, 100])
        return f

    def valid(self, c):
        w = c["work"]
        n = len(w["texts"])
        return w["sets"] and all(w["sets"]) and n > 0 and all(t is None or t == t.strip() for t in w["texts"]) and len(set(w["texts"])) == n and all(x < n for d in w["sets"] for s in d for x in s) and \
            (not w["damage"] or w["damage"]["set"] < len(w["sets"])) and all(x.get("without") is None or x["without"] < len(w["sets"]) for x in c["runs"]) and c["runs"] and w["mode"] in ("text", "url") and \
            (w.get("weight", 1) == 1 or len(w["sets"]) == 1 and not w["damage"] and not any(x["faults"] for x in c["runs"])) and not c["runs"][-1].get("swap") and c["runs"][-1].get("without") is None

    def key(self, w, t):
        if w["mode"] == "text":
            return h(t)
        return "null" if t is None else url_of(t, 9, w.get("odd"))

    def put(self, ctx, w, r):
        """writes the datasets; returns the keys of every dataset, or None if the tool cannot tell where their urls are"""
        sets, ok = {}, True
        shutil.rmtree(ctx.path("data"), ignore_errors=True)
        for d, shards in enumerate(w["sets"]):
            keys, lost = [], False
            for s, xs in enumerate(shards):
                rows = []
                if r.get("without") == d:
                    xs = []
                for j, x in enumerate(xs):
                    t = w["texts"][x]
                    if x in r.get("swap", ()):
                        t = f"other {x}"
                    u = self.key(dict(w, mode="url"), t)
                    u = None if u == "null" else u
                    if not keys and u is None and w["mode"] == "url":
                        ok = False
                    keys.append(self.key(w, t))
                    row = {"metadata": {"url": u}} if w["meta"] else {"url": u}
                    rows.append(dict(row, id=f"{d}-{s}-{j}", text=t))
                ls = jl(rows)
                dm = w["damage"] if w["damage"] and w["damage"]["set"] == d and w["damage"]["at"] % len(shards) == s else None
                if dm and dm["how"] == "json":
                    ls.insert(dm["at"] % (len(ls) + 1), "{\"text\": \n")
                ctx.write(f"data/d{d}/s{s}.jsonl.gz", damage(gz(ls), dm["how"], dm["at"]) if dm else gz(ls))
            sets[f"d{d}"] = keys
        ctx.write("datasets.json", json.dumps({n: ctx.path(f"data/{n}") + "/*.gz" for n in reversed(sets)}))
        return sets if ok else None

    def execute(self, ctx):
        w = ctx.case["work"]
        ctx.probes.add(w["mode"])
        base = "int/" + ("url_overlaps" if w["mode"] == "url" else "text_overlaps")
        if w["old"]:
            for f in ("sorted_uniq_counts/d0.txt", "sorted_uniq/d0.txt", "sorted_uniq/d0_and_d1.txt", "top_examples/d0.jsonl", "duplicate_counts.json", "overlap_numbers.txt"):
                if f != "sorted_uniq/d0_and_d1.txt" or len(w["sets"]) > 1:
                    ctx.write(f"{base}/{f}", "      9 left over\n")
        env = {"TEXT_AND_URL_OVERLAPS": T}
        if w.get("weight", 1) > 1:
            ctx.write("bin/uniq", f"#!/bin/bash\nset -o pipefail\n/usr/bin/uniq \"$@\" | awk '{{match($0, /^ *[0-9]+/); printf \"%7.0f%s\\n\", substr($0, 1, RLENGTH) * {w['weight']}, substr($0, RLENGTH + 1)}}'\n")
            os.chmod(ctx.path("bin/uniq"), 0o755)
            env["SIM_FIRST"] = ctx.path("bin")
            ctx.probes.add("large_counts")
        for k, r in enumerate(ctx.case["runs"]):
            sets = self.put(ctx, w, r)
            code, out, err = shell.run(ctx, ["/bin/bash", T + "/run_analysis.sh", ctx.path("datasets.json"), ctx.path("int"), w["mode"]], k, env)
            if not self.judge_exit(ctx, k, code, err, bool(w["damage"]) or sets is None):
                continue
            if w["damage"]:
                bad("damage_ignored", f"run {k}: a shard of dataset {w['damage']['set']} is damaged ({w['damage']['how']}) but the run ends with status 0")
            if sets is None:
                # the first url is null: only the status tells that the tool cannot know where the urls are
                continue
            self.judge(ctx, w, base, sets, k)

    def judge(self, ctx, w, base, sets, k):
        C = collections.Counter
        why = f" (faults: {ctx.worlds[-1].fired})" if ctx.worlds[-1].fired else ""

        def lines(f):
            b = ctx.read(f"{base}/{f}")
            if b is None:
                bad("missing", f"run {k} exits 0 without {f}{why}")
            x = b.decode().split("\n")
            return x[:-1] if x[-1] == "" else x
        want, dups = {}, {}
        for n, keys in sets.items():
            c = C({key: v * w.get("weight", 1) for key, v in C(keys).items()})
            lines(f"sorted_uniq_counts/{n}.txt")
            got = counted(ctx.read(f"{base}/sorted_uniq_counts/{n}.txt"))
            if got != sorted(c.items()):
                bad("counts", f"run {k} exits 0 but the counts of {n} are {got}, expected {sorted(c.items())}{why}")
            dups[n] = {"duplicates": sum(v for v in c.values() if v > 1), "total": sum(c.values()), "uniq_duplicates": sum(v > 1 for v in c.values()), "uniq_total": len(c)}
            want[f"{n}.txt"] = sorted(c)
        names = sorted(sets)
        for m in range(2, len(names) + 1):
            for x in itertools.combinations(names, m):
                want["_and_".join(x) + ".txt"] = sorted(set.intersection(*[set(sets[n]) for n in x]))
        for f, keys in want.items():
            if lines("sorted_uniq/" + f) != keys:
                bad("overlap", f"run {k} exits 0 but sorted_uniq/{f} holds {lines('sorted_uniq/' + f)}, expected {keys}{why}")
        got = sorted((x.split()[1].rsplit("/", 1)[-1], int(x.split()[0])) for x in lines("overlap_numbers.txt"))
        if got != sorted((f, len(x)) for f, x in want.items()):
            bad("numbers", f"run {k} exits 0 but overlap_numbers.txt says {got}, expected {sorted((f, len(x)) for f, x in want.items())}{why}")
        got = json.loads("\n".join(lines("duplicate_counts.json")))
        if got != dups:
            bad("duplicates", f"run {k} exits 0 but duplicate_counts.json says {got}, expected {dups}{why}")
        byh = {h(t): ("None" if t is None else t) for t in w["texts"] + [f"other {x}" for x in range(len(w["texts"]))]}
        for n, keys in sets.items():
            c = C({key: v * w.get("weight", 1) for key, v in C(keys).items()})
            got = [json.loads(x) for x in lines(f"top_examples/{n}.jsonl")]
            top = sorted(c.values(), reverse=True)[:30]
            ks = [g["text"] if w["mode"] == "url" else g["hash"] for g in got]
            if [int(g["count"]) for g in got] != top or len(set(ks)) != len(ks) or any(c[x] != int(g["count"]) for x, g in zip(ks, got)) or (w["mode"] == "text" and any(byh[g["hash"]] != g["text"] for g in got)):
                bad("examples", f"run {k} exits 0 but the top examples of {n} are {got}, expected those with the counts {top}{why}")


# ------------------------------------------------------------------ P21 all analyses of a dataset

PLAY = """import hashlib, json, os, sys
what, args = sys.argv[1], sys.argv[2:]
opt, files = {}, []
if what == "wimbd":
    what = args.pop(0)
    it = iter(args)
    for a in it:
        if a in ("-n", "-k", "-j", "--threshold", "--size", "--out", "-o", "--seed", "-l", "--file-limit", "-w", "--workers"):
            opt[a] = next(it)
        elif a.startswith("--") and "=" in a:
            k, v = a.split("=", 1)
            opt[k] = v
        elif a.startswith("-"):
            opt[a] = True
        else:
            files.append(a)
elif what == "overlaps":
    if len(args) < 3 or args[2] not in ("text", "url"):
        sys.exit("which mode?")
    json.load(open(args[0]))
    os.makedirs(args[1] + "/" + args[2] + "_overlaps", exist_ok=True)
    opt["--out"] = args[1] + "/" + args[2] + "_overlaps/overlap_numbers.txt"
    files = args[:1]
else:
    files = args
if not files:
    sys.exit("no files")
rows = [{"analysis": what, "n": opt.get("-n"), "file": os.path.basename(f), "of": hashlib.md5(open(f, "rb").read()).hexdigest()} for f in sorted(files, key=os.path.basename)]
out = opt.get("--out") or opt.get("-o")
if out:
    if what != "overlaps" and os.path.exists(out) and os.path.getsize(out) and not ("--force" in opt or "-f" in opt):
        sys.exit("the output exists")
    with open(out, "w") as f:
        for x in rows:
            f.write(json.dumps(x) + "\\n")
elif what == "stats" and "--json" in opt:
    print(json.dumps({"analysis": what, "rows": rows}))
else:
    for x in rows:
        print(json.dumps(x))
"""


class AllAnalyses(ShellProp):
    id = "P21"
    budget = (600, 30000)
    rule = "one run of runs/run_analysis.sh over generated files, with stand-ins for the analyses that can fail, be killed, or fail to write; and the run after a failed one, in an empty results folder."
    real = ["runs/run_analysis.sh (with its fixed folders moved into the scratch directory)", "bash, jq"]
    stub = ["bin/wimbd and the run scripts of the analyses (stand-ins that print or write rows naming the analysis, its files and their contents)", "python (forked from a prepared interpreter)"]
    NAME = "dolma-v1_5"
    STEPS = {"sentence_lengths": ["length_dist"], "url_per_tok_counts": ["url_tok"], "url_counts": ["url"], "scheme_counts": ["scheme"], "high_level_domain_counts": ["high_level_domain"], "pii": ["pii"],
             "profanity": ["profanity_taxonomy", "profanity_model"]}
    NGRAMS = ["1", "2", "3", "5", "10", "100"]

    def gen(self, r, i):
        names = r.sample(["a", "b", "part-0", "c.x", "d_1", "e"], r.choice([1, 2, 3, 4]))
        work = {"files": [[r.choice(["wiki", "books", "cc.en"]), n, r.randrange(10000)] for n in names]}
        runs, ck = [gen_jobs(r)], "calm"
        if r.random() < 0.8:
            ck, x = "fault", gen_jobs(r)
            a = r.choice(["err", "err", "kill", "kill", "read", "crash"])
            f = {"tool": "play.py", "nth": r.choice([0, 0, 0, r.randrange(18), r.randrange(18), r.randrange(18), r.randrange(18), r.randrange(18)]), "action": a, "arg": r.choice([0, 1, 20, 100, 200])}
            if r.random() < 0.15:
                f = {"tool": "jq", "nth": 0, "action": r.choice(["err", "kill"]), "arg": r.choice([0, 1, 20])}
            elif r.random() < 0.3:
                f.update(action=r.choice(["file", "filekill", "filecrash"]), nth=r.choice([1, 2, 3, 4, 5, 6, 8, 9]))
            x["faults"] = [f]
            runs = [x] + runs
        return {"kind": ck, "work": work, "runs": runs}

    def valid(self, c):
        fs = c["work"]["files"]
        return fs and len({f[1] for f in fs}) == len(fs) and all(re.fullmatch(r"[a-z0-9._-]+", f[0]) and re.fullmatch(r"[a-z0-9._-]+", f[1]) for f in fs)

    def execute(self, ctx):
        w = ctx.case["work"]
        with open(REPO + "/runs/run_analysis.sh") as f:
            script = f.read()
        ctx.write("home/runs/run_analysis.sh", script.replace("/mnt/tank3", ctx.path("tank")))
        ctx.write("home/play.py", PLAY)

        def put(rel, what, like=None):
            ctx.write("home/" + rel, f"#!/bin/bash\nexec python {ctx.path('home/play.py')} {what} \"$@\"\n")
            os.chmod(ctx.path("home/" + rel), os.stat(like).st_mode & 0o777 if like else 0o755)
        put("bin/wimbd", "wimbd")
        for d in sorted(os.listdir(REPO + "/wimbd")):
            if os.path.exists(f"{REPO}/wimbd/{d}/run.sh"):
                put(f"wimbd/{d}/run.sh", d, f"{REPO}/wimbd/{d}/run.sh")
        put("wimbd/text_and_url_overlaps/run_analysis.sh", "overlaps", T + "/run_analysis.sh")
        for n in ("text_datasets.json", "url_datasets.json"):
            ctx.write("home/" + n, json.dumps({"d": ctx.path("tank") + "/" + n}))
        files = {}
        for d, n, x in w["files"]:
            b = gz(jl([{"id": f"{x}-{j}", "text": f"t {mix(x, j) % 99}"} for j in range(x % 4)]))
            ctx.write(f"tank/{self.NAME}/{d}/{n}.json.gz", b)
            files[f"{n}.json.gz"] = hashlib.md5(b).hexdigest()
        for k in range(len(ctx.case["runs"])):
            shutil.rmtree(ctx.path("tank/results"), ignore_errors=True)
            shutil.rmtree(ctx.path("home/data"), ignore_errors=True)
            os.makedirs(ctx.path("tank/results"))
            code, out, err = shell.run(ctx, ["/bin/bash", "runs/run_analysis.sh"], k, {"TEXT_AND_URL_OVERLAPS": ctx.path("home/wimbd/text_and_url_overlaps")}, cwd=ctx.path("home"))
            if not self.judge_exit(ctx, k, code, err, False):
                continue
            self.judge(ctx, files, out.decode(), k)

    def judge(self, ctx, files, out, k):
        why = f" (faults: {ctx.worlds[-1].fired})" if ctx.worlds[-1].fired else ""

        def rows(what, n=None, fs=files):
            return [{"analysis": what, "n": n, "file": f, "of": fs[f]} for f in sorted(fs)]

        def parse(rel, b):
            if b is None:
                bad("missing", f"run {k} exits 0 without {rel}{why}; there are {[f for f in ctx.files() if f.startswith('tank/results')]}")
            try:
                return [json.loads(x) for x in b.decode().splitlines()] if not rel.endswith(".json") else json.loads(b)
            except ValueError:
                bad("results", f"run {k} exits 0 but {rel} is cut off{why}")

        def have(name, want):
            got = parse(name, ctx.read("tank/results/" + name))
            if got != want:
                bad("results", f"run {k} exits 0 but {name} holds {str(got)[:300]}, expected {str(want)[:300]}{why}")
        have(f"summary_{self.NAME}.json", {"analysis": "stats", "rows": rows("stats")})
        for n in self.NGRAMS:
            have(f"top{n}_{self.NAME}.jsonl", rows("topk", n))
        bot = [f for f in ctx.files() if f.startswith("tank/results/bot")]
        if len(bot) != 1 or parse(bot[0], ctx.read(bot[0])) != rows("botk", "1"):
            bad("results", f"run {k} exits 0 but the bottom-k lists are {bot}{why}")
        for what, names in self.STEPS.items():
            for n in names:
                if what == "high_level_domain_counts":
                    u = f"url_{self.NAME}.jsonl"
                    have(f"{n}_{self.NAME}.jsonl", rows(what, None, {u: hashlib.md5(ctx.read("tank/results/" + u) or b"").hexdigest()}))
                else:
                    have(f"{n}_{self.NAME}.jsonl", rows(what))
        got = [json.loads(x) for x in out.splitlines() if x.startswith('{"analysis"')]
        if got != rows("unique", "1"):
            bad("results", f"run {k} exits 0 but prints {str(got)[:300]} instead of the numbers of unique n-grams{why}")
        if not any(f.endswith("text_overlaps/overlap_numbers.txt") for f in ctx.files()):
            bad("missing", f"run {k} exits 0 without the analysis of duplicates{why}")


# ------------------------------------------------------------------ P22 the contamination of many datasets

MEASURE = """import json, os, sys
print("measuring", " ".join(sys.argv[1:]), flush=True)
a = sys.argv[1:]
if len(a) % 2 or any(not x.startswith("--") for x in a[::2]):
    sys.exit("usage")
f = os.open(os.environ["SIM_ROOT"] + "/measured.jsonl", os.O_WRONLY | os.O_CREAT | os.O_APPEND)
os.write(f, (json.dumps(dict(zip(a[::2], a[1::2]))) + "\\n").encode())
os.close(f)
print(0.5)
"""


class Sweep(ShellProp):
    id = "P22"
    budget = (1200, 60000)
    rule = "one run of runs/p3_contamination.py over a generated list of datasets, some of which cannot be loaded at some moments, with a stand-in for the measurement that can fail or be killed; and the run after a broken one."
    real = ["runs/p3_contamination.py"]
    stub = ["datasets (a list of splits and their sizes, and when they cannot be loaded)", "pandas (tables in memory)", "tqdm", "wimbd/es/corpus_contamination.py (a stand-in that records its arguments; the program itself has a check of its own)", "python (forked from a prepared interpreter)"]
    CORPORA = ["c4", "openwebtext", "re_oscar", "re_pile"]
    WHY = ["file", "connection", "generation", "manual"]

    def gen(self, r, i):
        rows = []
        for n in r.sample(["super_glue", "glue", "anli", "user/set", "xnli", "piqa", "v2020", "wiki_qa"], r.choice([1, 2, 2, 3, 4, 5])):
            for sub in (r.sample(["rte", "copa", "v2021", "labeled final", "x_y"], r.choice([1, 2])) if r.random() < 0.5 else [None]):
                splits = r.sample(["train", "validation", "test", "test_r1", "test_matched", "latest"], r.choice([0, 1, 2, 3, 4]))
                rows.append({"name": n, "sub": sub, "fields": r.sample(["premise", "hypothesis", "question", "answer_1", "text"], r.choice([1, 2, 2, 3, 5])),
                             "splits": [[s, r.choice([0, 1, 277, 24999, 25000, 25000, 25001, 25001, 10 ** 6])] for s in splits], "known": r.random() < 0.95,
                             "fails": {str(r.randrange(4)): r.choice(self.WHY * 5 + ["other"]) for _ in range(r.choice([0, 0, 0, 1, 2]))}})
        x, ck, runs = gen_jobs(r), "calm", []
        if r.random() < 0.6:
            ck = "fault"
            t = r.choice(["corpus_contamination.py"] * 5 + ["p3_contamination.py"])
            x["faults"] = [{"tool": t, "nth": r.choice([0, 0, 0, 1, 2, 3, 5, 8]) if t[0] == "c" else 0, "action": r.choice(["err", "kill"] + ["crash"] * (t[0] == "p")), "arg": r.choice([0, 0, 5, 30])} for _ in range(r.choice([1, 1, 2]))]
            runs = [x] + ([gen_jobs(r)] if r.random() < 0.3 else [])
        return {"kind": ck, "work": {"rows": rows}, "runs": runs or [x]}

    def valid(self, c):
        rows = c["work"]["rows"]
        return rows and len({(x["name"], x["sub"]) for x in rows}) == len(rows) and all(re.fullmatch(r"[a-z0-9_/]+", x["name"]) and (x["sub"] is None or re.fullmatch(r"[a-z0-9_ ]+", x["sub"])) and x["fields"] and
               all(re.fullmatch(r"[a-z_0-9]+", f) for f in x["fields"]) and all(len(s) == 2 and s[1] >= 0 for s in x["splits"]) and len({s[0] for s in x["splits"]}) == len(x["splits"]) and
               all(k in "0123" and v in self.WHY + ["other"] for k, v in x["fails"].items()) for x in rows) and any(not x["name"].isdigit() for x in rows) and \
            (not any(x["sub"] for x in rows) or any(x["sub"] and not x["sub"].isdigit() for x in rows))

    def execute(self, ctx):
        rows = ctx.case["work"]["rows"]
        with open(REPO + "/runs/p3_contamination.py") as f:
            ctx.write("home/runs/p3_contamination.py", f.read())
        ctx.write("home/wimbd/es/corpus_contamination.py", MEASURE)
        ctx.write("home/resources/p3_datasets.tsv", "".join(f"{x['name']}\t{x['sub'] or ''}\t{x['fields']}\n" for x in rows))
        # blanks are no part of a name
        name = lambda x: (x["sub"] or "").replace(" ", "")  # noqa
        ctx.write("hub.json", json.dumps({f"{x['name']}|{name(x)}": {"splits": x["splits"], "fails": x["fails"]} for x in rows if x["known"]}))
        want, must = collections.Counter(), True
        for j, c in enumerate(self.CORPORA):
            for x in rows:
                if len(x["fields"]) < 2 or not x["known"]:
                    continue
                if str(j) in x["fails"]:
                    must = must and x["fails"][str(j)] != "other"
                    continue
                for s, n in x["splits"]:
                    if "test" in s and n <= 25000:
                        want[json.dumps(dict({"--corpus": x["name"], "--index": c, "--split": s, "--fields": ",".join(x["fields"])}, **({"--sub_corpus": name(x)} if x["sub"] else {})), sort_keys=True)] += 1
        for k in range(len(ctx.case["runs"])):
            if ctx.read("measured.jsonl") is not None:
                os.remove(ctx.path("measured.jsonl"))
            code, out, err = shell.run(ctx, ["python", "runs/p3_contamination.py"], k, cwd=ctx.path("home"))
            fired = ctx.worlds[-1].fired
            own = [f for f in fired if "p3_contamination.py" in f]
            got = collections.Counter(json.dumps(json.loads(x), sort_keys=True) for x in (ctx.read("measured.jsonl") or b"").decode().splitlines())
            why = f" (faults: {fired})" if fired else ""
            if got - want:
                bad("measured", f"run {k} measures {dict(got - want)}, which is too much{why}")
            if code:
                ctx.probes.add("error_raised")
                if not own and must:
                    bad("broken_off", f"run {k} breaks off although only datasets or measurements fail: {err[-400:]}{why}")
                continue
            ctx.probes.add("complete")
            lost = len(fired) - len(own)
            if sum((want - got).values()) > lost:
                bad("left_out", f"run {k} exits 0 without the measurements {sorted((want - got).elements())[:4]}; {lost} failed{why}")
            if lost:
                ctx.probes.add("measurement_failed")
            said = sum("failed" in x for x in out.decode().splitlines())
            if said != lost:
                bad("failures_hidden", f"run {k} exits 0; {lost} measurements failed but {said} failures are reported{why}")


PROPS = [MapReduce(), Overlaps(), StackList(), OverlapAnalysis(), AllAnalyses(), Sweep()]
