"""Simulated shell pipelines: the real scripts run under the real bash; python, parallel and pv, and the tools a fault is planned for, are run by
the simulator (zygote.py), which decides the order of the jobs and where a program fails or is killed."""
import hashlib, json, os, re, signal, socket, struct, subprocess, sys, time
import kernel
from engine import bad
from kernel import REPO

HERE = os.path.dirname(os.path.abspath(__file__))
_zy = {}


class Run:
    """what the engine needs to know of one run of a pipeline"""
    def __init__(self):
        self.steps = self.switches = self.max_threads = 0
        self.now = self.t0 = 0.0
        self.ctr, self.fired, self.decisions, self.trace, self.verdict = {}, [], {}, None, None
        self.policy = "jobs"
        self.ev = hashlib.blake2b(digest_size=8)
        self.sched_h = hashlib.blake2b(digest_size=8)


def zygote(root):
    """the program runner of this process"""
    if os.getpid() not in _zy:
        base = os.path.join(os.path.dirname(root), f"zy{os.getpid()}")
        os.makedirs(base + "/bin", exist_ok=True)
        stub = os.environ["SIM_STUB"]
        for t in ("python", "python3", "parallel", "pv"):
            if not os.path.exists(f"{base}/bin/{t}"):
                os.symlink(stub, f"{base}/bin/{t}")
        sock = base + "/s"
        if os.path.exists(sock):
            os.remove(sock)
        env = {"PYTHONHASHSEED": "0", "PATH": "/usr/bin:/bin"}
        p = subprocess.Popen([sys.executable, os.path.join(HERE, "zygote.py"), sock], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, env=env, cwd="/",
                             preexec_fn=lambda: __import__("ctypes").CDLL(None).prctl(1, signal.SIGKILL))
        assert p.stdout.readline() == b"ready\n"
        _zy[os.getpid()] = (p, base, sock)
    return _zy[os.getpid()]


def reset(sock):
    s = socket.socket(socket.AF_UNIX)
    s.connect(sock)
    m = b"reset\0"
    s.sendall(struct.pack("<I", len(m)) + m)
    s.recv(4)
    s.close()


def run(ctx, argv, k, env=None, timeout=180, cwd=None):
    """runs a script as run k of the case; returns (code, stdout, stderr)"""
    r = ctx.case["runs"][k]
    p, base, sock = zygote(ctx.root)
    reset(sock)
    w = Run()
    ctx.worlds.append(w)
    log = ctx.path("..", os.path.basename(ctx.root) + ".log")
    if os.path.exists(log):
        os.remove(log)
    faults = list(r.get("faults", ()))
    path = []
    for t in sorted({f["tool"] for f in faults}):
        if not t.endswith(".py"):
            d = f"{base}/t-{t}"
            if not os.path.exists(d):
                os.makedirs(d)
                os.symlink(os.environ["SIM_STUB"], f"{d}/{t}")
            path.append(d)
    e = {"PATH": ":".join(path + [base + "/bin", "/usr/bin", "/bin"]), "SIM_ZY": sock, "SIM_LOG": log, "SIM_ROOT": ctx.root, "WIMBD_REPO": REPO, "PYTHONPATH": REPO, "HOME": ctx.root, "LC_ALL": "C.UTF-8",
         "TMPDIR": ctx.root + "/tmp", "SIM_PLAN": json.dumps({"order": r.get("io_seed", 0), "faults": faults}), "SHELL": "/bin/bash"}
    e.update(env or {})
    if "SIM_FIRST" in e:
        # tools of the case itself
        e["PATH"] = e.pop("SIM_FIRST") + ":" + e["PATH"]
    os.makedirs(ctx.root + "/tmp", exist_ok=True)
    out_p, err_p = ctx.path("..", os.path.basename(ctx.root) + ".out"), ctx.path("..", os.path.basename(ctx.root) + ".err")
    with kernel._real.open(out_p, "wb") as o, kernel._real.open(err_p, "wb") as er:
        q = subprocess.Popen(["/bin/bash", "-c", 'export SIM_TOP=$$; exec "$@"', "-", *argv], stdin=subprocess.DEVNULL, stdout=o, stderr=er, env=e, cwd=cwd or ctx.root, start_new_session=True)
        try:
            code = q.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(q.pid, signal.SIGKILL)
            q.wait()
            bad("no_end", f"run {k} does not end within {timeout} s: {argv}")
    with kernel._real.open(out_p, "rb") as f:
        out = f.read()
    with kernel._real.open(err_p, "rb") as f:
        err = f.read().decode("utf-8", "replace")
    lines = []
    if os.path.exists(log):
        with kernel._real.open(log) as f:
            lines = f.read().splitlines()
    for x in lines:
        a = x.split()
        if a[0] == "fault":
            w.fired.append(a[1:])
            w.ctr["fault:" + a[1] + ":" + a[2]] = w.ctr.get("fault:" + a[1] + ":" + a[2], 0) + 1
        w.ctr[a[0]] = w.ctr.get(a[0], 0) + 1
    w.steps = len(lines)
    jobs = [x for x in lines if x.startswith("job")]
    w.max_threads = len(jobs)
    w.sched_h.update("\n".join(x.split()[1] for x in jobs).encode())
    if len(jobs) > 1 and jobs != sorted(jobs):
        w.ctr["preemptions"] = 1
    # whether a program ends by itself or because nobody reads any more is a matter of timing, and so is which of the programs in a pipe
    # meets damaged input first
    w.ev.update(b"failed" if code and not w.fired else repr((sorted(re.sub(" 141$", " 0", x) for x in lines), code, hashlib.md5(out).hexdigest())).encode())
    w.trace = [[i, 0, x] for i, x in enumerate(lines)] if ctx.trace else None
    if "stub: " in err or "parallel stub" in err:
        raise kernel.HarnessError(err)
    return code, out, err
