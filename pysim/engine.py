"""Seeded search over cases, minimisation, replay and evidence for the simulated Python tools."""
import copy, gc, hashlib, json, os, random, re, shutil, signal, sys, time, traceback
import kernel
from kernel import World, HarnessError, mix

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls, self.msg = cls, msg


def bad(cls, msg):
    raise Violation(cls, msg)


class Ctx:
    """one execution of a case"""

    def __init__(self, case, root, trace=False):
        self.case, self.root, self.trace = case, root, trace
        self.worlds = []
        self.probes = set()

    def path(self, *p):
        return os.path.join(self.root, *p)

    def write(self, rel, data):
        p = self.path(rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(data, str):
            data = data.encode()
        with kernel._real.open(p, "wb") as f:
            f.write(data)

    def read(self, rel):
        try:
            with kernel._real.open(self.path(rel), "rb") as f:
                return f.read()
        except FileNotFoundError:
            return None

    def exists(self, rel):
        return os.path.exists(self.path(rel))

    def files(self):
        out = []
        for d, _, fs in os.walk(self.root):
            for f in fs:
                out.append(os.path.relpath(os.path.join(d, f), self.root))
        return sorted(out)

    def launch(self, main, k, hang_ok=False, setup=None, budget_s=60):
        """runs main as one simulated process in the world of run k"""
        r = self.case["runs"][k] if k < len(self.case["runs"]) else {"sched": {}, "faults": [], "io_seed": 0}
        w = World(self.root, sched=r.get("sched"), faults=r.get("faults", ()), io_seed=r.get("io_seed", 0), pinned=r.get("pinned"),
                  max_steps=r.get("max_steps", 400_000))
        w.fs_left = r.get("fs_left")
        w.run_no = k
        if self.trace:
            w.trace = []
        self.worlds.append(w)
        if setup:
            setup(w)
        kernel.with_world(w)
        cwd = os.getcwd()
        os.chdir(self.root)
        gc.disable()
        try:
            proc = w.run(main, budget_s=budget_s)
        finally:
            w.cur = None
            kernel.WORLD = None
            os.chdir(cwd)
            gc.enable()
        if w.verdict is not None and not hang_ok:
            bad("no_end", f"run {k}: {w.verdict[0]}: {w.verdict[1]}")
        return proc

    def hash(self):
        h = hashlib.blake2b(digest_size=8)
        for w in self.worlds:
            h.update(w.ev.digest())
        return h.hexdigest()


def clear(root):
    # scratch of this process only
    assert "wimbd-pysim" in root
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root, exist_ok=True)


def run_case(prop, case, root, trace=False):
    clear(root)
    ctx = Ctx(case, root, trace)
    v = None
    try:
        prop.execute(ctx)
    except Violation as e:
        v = e
    except Exception as e:  # noqa
        # the tool's output is not even of the shape the judge reads
        tb = traceback.extract_tb(e.__traceback__)
        if not any(os.path.basename(f.filename) == "kernel.py" for f in tb) and isinstance(e, (KeyError, IndexError, TypeError, AttributeError, ValueError)):
            at = [f for f in tb if os.path.basename(f.filename).startswith("props")][-1]
            v = Violation("malformed_output", f"the output has not the expected form: {type(e).__name__}: {e} (judge line {at.lineno})")
        else:
            raise
    return v, ctx


# ----------------------------------------------------------------- generation helpers

def gen_sched(r, threads=True):
    if not threads:
        return {"policy": "serial"}
    pol = r.choices(["random", "pct", "burst", "starve", "io", "serial"], [34, 24, 16, 10, 10, 6])[0]
    s = {"policy": pol, "seed": r.getrandbits(32), "gran": r.choice(["line", "line", "opcode"])}
    if pol == "random":
        s["p"] = r.choice([0.5, 0.2, 0.05, 0.01])
    elif pol == "io":
        s["p"] = r.choice([0.8, 0.3])
    elif pol == "pct":
        s["depth"] = r.randrange(1, 7)
        s["range"] = r.choice([100, 400, 1500, 6000])
    elif pol == "burst":
        s["mean"] = r.choice([3, 10, 40, 200])
    elif pol == "starve":
        s["p"] = r.choice([0.2, 0.02])
        s["victim"] = r.randrange(0, 4)
    return s


def gen_run(r, threads=True, faults=()):
    return {"sched": gen_sched(r, threads), "faults": list(faults), "io_seed": r.choice([0, r.getrandbits(31), r.getrandbits(31), r.getrandbits(31)])}


CALM = {"sched": {"policy": "serial"}, "faults": [], "io_seed": 0}


# ----------------------------------------------------------------- search

def case_rng(seed, pid, i):
    return random.Random(mix(seed, pid, i))


def worker(prop, seed, total, w, n, root, q, wall):
    """runs cases w, w+n, ... and writes one JSON line per event into q"""
    import install
    install.install()
    known = load_known(prop.id)
    t0 = time.time()
    t0 = kernel._real.time()
    st = {"cases": 0, "runs": 0, "steps": 0, "sim_s": 0.0, "switches": 0, "ctr": {}, "kinds": {}, "policies": {}, "probes": {}, "det": 0, "detbad": 0,
          "fault_runs": 0, "max_threads": 0, "scheds": [], "nontrivial": [], "samples": [], "found": None, "known": [], "capped": False, "harness": None}
    scheds, nontriv = set(), set()
    stop = os.path.join(os.path.dirname(root), "stop")
    for i in range(w, total, n):
        if os.path.exists(stop):
            break
        if kernel._real.time() - t0 > wall:
            st["capped"] = True
            break
        case = prop.gen(case_rng(seed, prop.id, i), i)
        try:
            v, ctx = run_case(prop, case, root)
        except Exception:  # noqa
            st["harness"] = f"case {i}: " + traceback.format_exc()
            kernel._real.open(stop, "w").close()
            break
        st["cases"] += 1
        st["kinds"][case["kind"]] = st["kinds"].get(case["kind"], 0) + 1
        interesting = False
        for k, wd in enumerate(ctx.worlds):
            st["runs"] += 1
            st["steps"] += wd.steps
            st["sim_s"] += wd.now - wd.t0
            st["switches"] += wd.ctr.get("switches", 0)
            st["max_threads"] = max(st["max_threads"], wd.max_threads)
            for c, x in wd.ctr.items():
                st["ctr"][c] = st["ctr"].get(c, 0) + x
            if wd.fired or any(c.startswith("fault:") for c in wd.ctr):
                st["fault_runs"] += 1
                interesting = True
            if wd.ctr.get("preemptions"):
                interesting = True
            st["policies"][wd.policy] = st["policies"].get(wd.policy, 0) + 1
            scheds.add(wd.sched_h.hexdigest())
        for p in ctx.probes:
            st["probes"][p] = st["probes"].get(p, 0) + 1
        if interesting or prop.nontrivial(case, ctx):
            nontriv.add(hashlib.blake2b((ctx.hash() + json.dumps(case, sort_keys=True)).encode(), digest_size=8).hexdigest())
        if i < 3:
            st["samples"].append(case)
        if i % 37 == 0:
            v2, c2 = run_case(prop, case, root)
            st["det"] += 1
            if c2.hash() != ctx.hash() or (v is None) != (v2 is None):
                st["detbad"] += 1
                print(f"note: case {i} of {prop.id} is not deterministic", file=sys.__stderr__)
        if v is not None:
            k = [x for x in known if x["class"] == v.cls and x.get("contains", "") in v.msg]
            if k:
                if k[0]["what"] not in st["known"]:
                    st["known"].append(k[0]["what"])
                continue
            st["found"] = [i, case, v.cls, v.msg, [wd.decisions for wd in ctx.worlds]]
            kernel._real.open(stop, "w").close()
            break
    st["scheds"], st["nontrivial"] = list(scheds), list(nontriv)
    with kernel._real.open(q, "w") as f:
        json.dump(st, f)


def load_known(pid):
    out = []
    try:
        for l in kernel._real.open(os.path.join(VERIF, "known_findings.txt")):
            if l.startswith("finding:"):
                d = json.loads(l[len("finding:"):])
                if d["property"] == pid:
                    out.append(d)
    except FileNotFoundError:
        pass
    return out


def scratch():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
    return os.path.join(base, f"wimbd-pysim-{os.getpid()}")


def check(prop, seed, tier, scale=1.0, nproc=None):
    t0 = time.time()
    nproc = nproc or min(8, os.cpu_count() or 1)
    nq, nt = prop.budget
    total = max(1, int((nt if tier == "thorough" else nq) * scale))
    wall = 3600 if tier == "thorough" else 400
    top = scratch()
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(top)
    try:
        return _check(prop, seed, tier, total, wall, top, nproc, t0)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def _check(prop, seed, tier, total, wall, top, nproc, t0):
    pids = []
    for w in range(nproc):
        pid = os.fork()
        if pid == 0:
            try:
                worker(prop, seed, total, w, nproc, os.path.join(top, f"wimbd-pysim-s{w}"), os.path.join(top, f"q{w}"), wall)
                os._exit(0)
            except BaseException:  # noqa
                traceback.print_exc(file=sys.__stderr__)
                os._exit(3)
        pids.append(pid)
    failed = False
    for p in pids:
        _, s = os.waitpid(p, 0)
        if s != 0:
            failed = True
            print(f"search process: {os.waitstatus_to_exitcode(s)}", file=sys.stderr)
    if failed:
        print("a search process failed", file=sys.stderr)
        return 2
    sts = [json.load(open(os.path.join(top, f"q{w}"))) for w in range(nproc)]
    explore = time.time() - t0
    for s in sts:
        if s["harness"]:
            print("harness error: " + s["harness"], file=sys.stderr)
            return 2
    tot = {k: sum(s[k] for s in sts) for k in ("cases", "runs", "steps", "sim_s", "switches", "det", "detbad", "fault_runs")}

    def merge(k):
        d = {}
        for s in sts:
            for a, b in s[k].items():
                d[a] = d.get(a, 0) + b
        return dict(sorted(d.items()))
    scheds = set().union(*[s["scheds"] for s in sts])
    nontriv = set().union(*[s["nontrivial"] for s in sts])
    for k in sorted(set(sum([s["known"] for s in sts], []))):
        print(f"KNOWN-FINDING: property={prop.id} {k}")
    found = sorted([s["found"] for s in sts if s["found"]], key=lambda f: f[0])
    code, info = 0, None
    if found:
        i, case, cls, msg, dec = found[0]
        print(f"case {i} of {prop.id} violates it [{cls}]: {msg}", file=sys.stderr)
        if os.environ.get("SIM_NOMIN"):
            return 1
        path = os.path.join(VERIF, "replays", f"{prop.id}-seed{seed}-case{i}.json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        pid = os.fork()
        if pid == 0:
            try:
                minimise_and_write(prop, case, cls, msg, dec, seed, i, path, os.path.join(top, "wimbd-pysim-min"))
                os._exit(0)
            except BaseException:  # noqa
                traceback.print_exc(file=sys.__stderr__)
                os._exit(3)
        os.waitpid(pid, 0)
        if not os.path.exists(path):
            return 2
        pid = os.fork()
        if pid == 0:
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
            os._exit(replay(prop, path, os.path.join(top, "wimbd-pysim-rep"), quiet=True))
        _, s = os.waitpid(pid, 0)
        info = {"path": path, "reproduced_in_fresh_process": os.WIFEXITED(s) and os.WEXITSTATUS(s) == 1}
        print(f"{prop.id}: {msg} [{cls}]", file=sys.stderr)
        print(f"VIOLATION property={prop.id} replay={path}", flush=True)
        code = 1
    ev = {
        "property": prop.id, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 2), "violations": len(found),
        "assumptions": prop.assumptions,
        "coverage": {
            "evaluations": tot["cases"], "distinct_nontrivial": len(nontriv),
            "rule": prop.rule + " A case is non-trivial if a thread was preempted or a fault fired in it" + prop.nontrivial_rule + "; distinct by case content and the hash of the whole event sequence.",
            "samples": [x for s in sts for x in s["samples"]][:3],
            "simulated_runs": tot["runs"], "runs_per_hour": int(tot["runs"] / max(explore, 0.01) * 3600), "seeds_per_hour": int(tot["cases"] / max(explore, 0.01) * 3600),
            "scheduling_points": tot["steps"], "context_switches": tot["switches"], "simulated_seconds": round(tot["sim_s"], 3),
            "distinct_interleavings": len(scheds), "distinct_interleavings_measure": "hash of the sequence of context switches (from, to, step) of one program run",
            "events_and_faults": merge("ctr"), "runs_with_a_fault": tot["fault_runs"], "case_kinds": merge("kinds"), "schedulers": merge("policies"),
            "probes": merge("probes"), "max_threads": max(s["max_threads"] for s in sts),
            "determinism_rechecks": tot["det"], "determinism_mismatches": tot["detbad"],
            "real_components": prop.real, "stub_components": prop.stub, "stopped_by_time": any(s["capped"] for s in sts),
        },
    }
    if info:
        ev["coverage"]["replay"] = info
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop.id}.json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    print(f"{prop.id}: {tot['cases']} cases, {tot['runs']} runs, {len(scheds)} distinct interleavings, {tot['fault_runs']} runs with faults, {explore:.1f}s, "
          f"determinism {tot['det'] - tot['detbad']}/{tot['det']} ok; kinds {merge('kinds')}; probes {merge('probes')}", file=sys.stderr)
    return code


# ----------------------------------------------------------------- minimisation and replay

def shrink_value(x):
    """smaller values of the same shape"""
    if isinstance(x, list):
        n = len(x)
        step = n
        while step >= 1:
            for at in range(0, n, step):
                yield x[:at] + x[at + step:]
            step //= 2
        for i, y in enumerate(x):
            for z in shrink_value(y):
                yield x[:i] + [z] + x[i + 1:]
    elif isinstance(x, dict):
        for k in x:
            for z in shrink_value(x[k]):
                yield {**x, k: z}
    elif isinstance(x, bool):
        if x:
            yield False
    elif isinstance(x, int):
        for y in {0, 1, x // 2, x - 1}:
            if 0 <= y < x:
                yield y
    elif isinstance(x, str) and len(x) > 1:
        yield x[: len(x) // 2]
        yield x[:-1]


def size(c):
    return len(json.dumps(c.get("work"))) + sum(len(r.get("faults", ())) * 5 for r in c["runs"])


def minimise_and_write(prop, case, cls, msg, dec, seed, i, path, root):
    import install
    install.install()
    t0 = kernel._real.time()
    cap = 40
    tried = 0

    def attempt(c):
        nonlocal tried
        tried += 1
        try:
            if not prop.valid(c):
                return None
            v, ctx = run_case(prop, c, root)
        except Exception:  # noqa
            return None
        if v is not None and v.cls == cls:
            return v, ctx
        return None
    orig = size(case)
    nf0 = sum(len(r.get("faults", ())) for r in case["runs"])
    best = case
    got = attempt(case)
    if got is None:
        got = (Violation(cls, msg), Ctx(case, root))
    progress = True
    while progress and kernel._real.time() - t0 < cap:
        progress = False
        # fewer faults, then a smaller workload
        for k, r in enumerate(best["runs"]):
            for fi in range(len(r.get("faults", ()))):
                c = copy.deepcopy(best)
                del c["runs"][k]["faults"][fi]
                g = attempt(c)
                if g:
                    best, got, progress = c, g, True
                    break
        for w in shrink_value(best["work"]):
            if kernel._real.time() - t0 > cap:
                break
            c = copy.deepcopy(best)
            c["work"] = w
            if size(c) >= size(best):
                continue
            g = attempt(c)
            if g:
                best, got, progress = c, g, True
                break
    # pin the schedule, then drop decisions
    c = copy.deepcopy(best)
    ok = False
    for k, w in enumerate(got[1].worlds):
        if k < len(c["runs"]):
            c["runs"][k]["pinned"] = {str(s): t for s, t in w.decisions.items()}
    n0 = sum(len(r.get("pinned", {})) for r in c["runs"])
    g = attempt(c)
    if g:
        best, got, ok = c, g, True
        for k in range(len(best["runs"])):
            keys = list(best["runs"][k].get("pinned", {}))
            step = max(1, len(keys))
            while step >= 1 and kernel._real.time() - t0 < cap + 15:
                at = 0
                while at < len(keys) and kernel._real.time() - t0 < cap + 15:
                    drop = set(keys[at:at + step])
                    c = copy.deepcopy(best)
                    c["runs"][k]["pinned"] = {a: b for a, b in best["runs"][k]["pinned"].items() if a not in drop}
                    g = attempt(c)
                    if g:
                        best, got = c, g
                        keys = [x for x in keys if x not in drop]
                    else:
                        at += step
                step //= 2
            c = copy.deepcopy(best)
            c["runs"][k]["io_seed"] = 0
            g = attempt(c)
            if g:
                best, got = c, g
    v, ctx = run_case(prop, best, root, trace=True)
    doc = {"property": prop.id, "seed": seed, "case": i, "violation": {"class": (v or got[0]).cls, "msg": (v or got[0]).msg},
           "minimised": {"workload_size": [orig, size(best)], "faults": [nf0, sum(len(r.get("faults", ())) for r in best["runs"])],
                         "scheduling_decisions": [n0, sum(len(r.get("pinned", {})) for r in best["runs"])], "decisions_pinned": ok, "candidates_tried": tried,
                         "seconds": round(kernel._real.time() - t0, 1)},
           "event_hash": ctx.hash(), "setup": best, "events": [(w.trace or [])[-400:] for w in ctx.worlds]}
    with kernel._real.open(path, "w") as f:
        json.dump(doc, f, indent=1, ensure_ascii=False)


def replay(prop, path, root, quiet=False):
    import install
    install.install()
    doc = json.load(kernel._real.open(path))
    try:
        v, ctx = run_case(prop, doc["setup"], root, trace=not quiet)
    except Exception:  # noqa
        traceback.print_exc(file=sys.__stderr__)
        return 2
    if v is None:
        print(f"{prop.id}: replay of {path}: no violation")
        return 0
    same = ctx.hash() == doc["event_hash"]
    if not quiet:
        for k, w in enumerate(ctx.worlds):
            for e in (w.trace or [])[-60:]:
                print(f"run {k} step {e[0]} thread {e[1]}: {' '.join(e[2:])}", file=sys.__stderr__)
    print(f"{prop.id}: [{v.cls}] {v.msg} ({'the same execution as recorded' if same else 'a different execution'})")
    if v.cls == doc["violation"]["class"]:
        print(f"VIOLATION property={prop.id} replay={path}")
        return 1
    return 2
