"""The process that runs the programs of a simulated pipeline (see stub.c): a fresh fork for each, with the faults of the plan in SIM_PLAN."""
import argparse, array, builtins, collections, errno, fcntl, gzip, hashlib, io, json, os, pickle, random, re, runpy, signal, socket, struct, subprocess, sys, traceback  # noqa
import urllib.parse, multiprocessing, itertools, glob, datetime, csv, string, functools, pathlib, shutil, tempfile, uuid, math, time  # noqa
import numpy, dateutil.parser  # noqa

HERE = os.path.dirname(os.path.abspath(__file__))


class Killed(BaseException):
    pass


class Out(io.RawIOBase):
    """a standard stream that fails or ends the program at a given byte"""
    def __init__(self, fd, fault, fire):
        self.fd, self.fault, self.n, self.fire = fd, fault, 0, fire

    def writable(self):
        return True

    def fileno(self):
        return self.fd

    def write(self, b):
        b = bytes(b)
        f = self.fault
        if f and f["action"] in ("kill", "err", "crash") and self.n + len(b) > f["arg"]:
            k = max(0, f["arg"] - self.n)
            self.all(b[:k])
            self.n += k
            self.fire()
            if f["action"] == "kill":
                os.kill(os.getpid(), signal.SIGKILL)
            if f["action"] == "crash":
                crash()
            raise OSError(errno.ENOSPC, "No space left on device")
        self.all(b)
        self.n += len(b)
        return len(b)

    def all(self, b):
        while b:
            b = b[os.write(self.fd, b):]


class In(io.RawIOBase):
    """a file whose reading fails at a given byte"""
    def __init__(self, path, at, fire):
        self.f, self.at, self.n, self.fire, self.name = io.FileIO(path), at, 0, fire, path

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, *a):
        return self.f.seek(*a)

    def tell(self):
        return self.f.tell()

    def fileno(self):
        return self.f.fileno()

    def readinto(self, b):
        at = self.f.tell()
        if at >= self.at:
            self.fire()
            raise OSError(errno.EIO, "Input/output error")
        d = self.f.read(min(len(b), self.at - at))
        b[:len(d)] = d
        return len(d)

    def close(self):
        self.f.close()
        super().close()


# ------------------------------------------------------------------ a process pool with a seeded order of tasks

class ForkPool:
    """worker processes forked one by one; they get their tasks one at a time in a seeded order"""
    rng = random.Random(0)

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None):
        n = processes or 3
        if n < 1:
            raise ValueError("Number of processes must be at least 1")
        self.w = []
        self.init = (initializer, initargs)
        for _ in range(n):
            a, b = socket.socketpair()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                a.close()
                for _, s in self.w:
                    s.close()
                rc = 0
                try:
                    if initializer:
                        initializer(*initargs)
                    f = b.makefile("rwb")
                    while True:
                        try:
                            fn, args, kw = pickle.load(f)
                        except EOFError:
                            break
                        try:
                            r = (True, fn(*args, **kw))
                        except Exception as e:  # noqa
                            r = (False, e)
                        pickle.dump(r, f)
                        f.flush()
                    sys.stdout.flush()
                except BaseException:  # noqa
                    traceback.print_exc()
                    rc = 1
                os._exit(rc)
            b.close()
            self.w.append((pid, a))
        self.files = [s.makefile("rwb") for _, s in self.w]
        self.open = True

    def one(self, fn, args=(), kw={}):
        f = self.rng.choice(self.files)
        pickle.dump((fn, args, kw), f)
        f.flush()
        try:
            ok, r = pickle.load(f)
        except EOFError:
            raise RuntimeError("a worker process ended")
        if not ok:
            raise r
        return r

    def many(self, fn, xs, star=False, unordered=False):
        xs = list(xs)
        order = list(range(len(xs)))
        self.rng.shuffle(order)
        out, err = {}, None
        for i in order:
            try:
                out[i] = self.one(fn, tuple(xs[i]) if star else (xs[i],))
            except Exception as e:  # noqa
                if err is None or i < err[0]:
                    err = (i, e)
        return order if unordered else range(len(xs)), out, err

    def map(self, fn, xs, chunksize=None, star=False):
        order, out, err = self.many(fn, xs, star)
        if err:
            raise err[1]
        return [out[i] for i in order]

    def starmap(self, fn, xs, chunksize=None):
        return self.map(fn, xs, star=True)

    def imap(self, fn, xs, chunksize=1, unordered=False):
        order, out, err = self.many(fn, xs, unordered=unordered)
        for i in order:
            if i in out:
                yield out[i]
            elif err:
                raise err[1]

    def imap_unordered(self, fn, xs, chunksize=1):
        return self.imap(fn, xs, unordered=True)

    def apply(self, fn, args=(), kwds={}):
        return self.one(fn, args, kwds)

    def _async(self, get):
        class R:
            def __init__(s):
                try:
                    s.v, s.e = get(), None
                except Exception as e:  # noqa
                    s.v, s.e = None, e

            def get(s, timeout=None):
                if s.e:
                    raise s.e
                return s.v

            def wait(s, timeout=None):
                pass

            def ready(s):
                return True

            def successful(s):
                return s.e is None
        return R()

    def apply_async(self, fn, args=(), kwds={}, callback=None, error_callback=None):
        return self._async(lambda: self.one(fn, args, kwds))

    def map_async(self, fn, xs, chunksize=None, callback=None, error_callback=None):
        return self._async(lambda: self.map(fn, xs))

    def close(self):
        if self.open:
            self.open = False
            for f in self.files:
                f.close()
            for pid, s in self.w:
                s.close()

    def join(self):
        for pid, s in self.w:
            try:
                os.waitpid(pid, 0)
            except ChildProcessError:
                pass

    terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        self.join()


# ------------------------------------------------------------------ programs

def shell_quote(s):
    if s and re.fullmatch(r"[A-Za-z0-9_./:=@%+,-]+", s):
        return s
    return "'" + s.replace("'", "'\"'\"'") + "'"


def parallel(argv, plan, log):
    """GNU parallel as the repository uses it; the jobs run one after another, in a seeded order, and their output appears in that order"""
    opt = {"colsep": None, "halt": None, "k": False, "lb": False}
    tmpl, args, i = [], None, 1
    val = {"--tmpdir": 0, "--colsep": "colsep", "-C": "colsep", "-j": 0, "--jobs": 0, "--max-args": 0, "-n": 0, "--max-procs": 0, "-P": 0, "--halt": "halt", "--joblog": 0, "--retries": 0,
           "--arg-file": "a", "-a": "a", "--load": 0, "--delay": 0, "--timeout": 0, "--memfree": 0}
    flags = {"-k": "k", "--keep-order": "k", "--line-buffer": "lb", "--lb": "lb", "--linebuffer": "lb", "-u": "lb", "--ungroup": "lb", "-q": "q", "--quote": "q"}
    cmd_seen = False
    while i < len(argv):
        a = argv[i]
        if a == ":::":
            # GNU parallel writes them to a file and reads its lines
            args = "".join(a + "\n" for a in argv[i + 1:]).split("\n")[:-1]
            break
        if not cmd_seen and a.startswith("-"):
            name, eq, v = a.partition("=")
            if a in flags:
                opt[flags[a]] = True
            elif name in val:
                if not eq:
                    i += 1
                    v = argv[i]
                if val[name]:
                    opt[val[name]] = v
            elif re.fullmatch(r"-[jPn]\d+%?", a) or a.startswith("--"):
                pass
            i += 1
            continue
        cmd_seen = True
        tmpl.append(a)
        i += 1
    if args is None:
        src = open(opt["a"]) if opt.get("a") else sys.stdin
        args = src.read().splitlines()
    elif ":::" in argv[i + 1:]:
        print("parallel stub: several input sources are not supported", file=sys.stderr)
        return 255
    if opt.get("q"):
        tmpl = [shell_quote(t) if not re.search(r"\{.*\}", t) else t for t in tmpl]
    t = " ".join(tmpl)
    if not re.search(r"\{(|\d+|/|\.|//|/\.|#)\}", t):
        t = (t + " {}").strip()

    def fill(a, n):
        cols = re.split(opt["colsep"], a) if opt["colsep"] is not None else [a]

        def sub(m):
            k = m.group(1)
            if k == "":
                return shell_quote(a)
            if k == "#":
                return str(n)
            if k.isdigit():
                return shell_quote(cols[int(k) - 1]) if int(k) <= len(cols) else ""
            base = a.rsplit("/", 1)
            if k == "/":
                return shell_quote(base[-1])
            if k == "//":
                return shell_quote(base[0] if len(base) > 1 else ".")
            if k == ".":
                return shell_quote(re.sub(r"\.[^./]*$", "", a))
            return shell_quote(re.sub(r"\.[^./]*$", "", base[-1]))
        return re.sub(r"\{(|\d+|/|\.|//|/\.|#)\}", sub, t)
    order = list(range(len(args)))
    rng = random.Random(plan.get("order", 0))
    if plan.get("order"):
        rng.shuffle(order)
    outs, failed, done = {}, 0, []
    for j in order:
        env = dict(os.environ, SIM_JOB=str(j))
        p = subprocess.run(["/bin/bash", "-c", fill(args[j], j + 1)], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, env=env)
        outs[j] = p.stdout
        done.append(j)
        log(f"job {j} {p.returncode} {len(p.stdout)}")
        if p.returncode != 0:
            failed += 1
            if opt["halt"] and "fail" in opt["halt"]:
                break
    w = lambda b: Out.all(type("o", (), {"fd": 1})(), b)  # noqa
    if opt["lb"] and not opt["k"]:
        ls = {j: outs[j].splitlines(keepends=True) for j in done}
        while any(ls.values()):
            j = rng.choice([j for j in ls if ls[j]])
            n = rng.choice([1, 1, 2, 5])
            w(b"".join(ls[j][:n]))
            ls[j] = ls[j][n:]
    else:
        for j in sorted(done) if opt["k"] else done:
            w(outs[j])
    return min(failed, 101)


def ended(code):
    return code if code >= 0 else 128 - code


def crash():
    """everything that belongs to the pipeline is killed"""
    top = int(os.environ["SIM_TOP"])
    os.killpg(top, signal.SIGSTOP)
    c = socket.socket(socket.AF_UNIX)
    c.connect(os.environ["SIM_ZY"])
    m = b"crash\0%d\0" % os.getpgid(0)
    c.sendall(struct.pack("<I", len(m)) + m)
    c.recv(4)
    os.killpg(top, signal.SIGKILL)
    os.killpg(0, signal.SIGKILL)


def tool(argv, fault, fire):
    """a real tool that ends early"""
    real = [d + os.path.basename(argv[0]) for d in ("/usr/bin/", "/bin/") if os.path.exists(d + os.path.basename(argv[0]))][0]
    if not fault:
        p = subprocess.Popen(argv, executable=real, close_fds=False)
        os.close(0)
        os.close(1)
        return ended(p.wait())
    p = subprocess.Popen(argv, executable=real, stdout=subprocess.PIPE)
    n = 0
    while True:
        b = os.read(p.stdout.fileno(), max(1, min(65536, fault["arg"] - n)))
        if n >= fault["arg"] or (not b and fault.get("always", True)):
            p.kill()
            p.wait()
            fire()
            if fault["action"] == "kill":
                os.kill(os.getpid(), signal.SIGKILL)
            if fault["action"] == "crash":
                crash()
            return 2
        if not b:
            return ended(p.wait())
        try:
            Out.all(type("o", (), {"fd": 1})(), b[:fault["arg"] - n])
        except BrokenPipeError:
            p.kill()
            p.wait()
            return 128 + signal.SIGPIPE
        n += len(b)


def python(argv, plan, fault, fire, log):
    script = argv[1]
    sys.argv = argv[1:]
    repo = os.environ["WIMBD_REPO"]
    sys.path[:] = [os.path.dirname(os.path.abspath(script)), os.path.join(HERE, "stubs"), repo] + [p for p in sys.path if p and p != HERE]
    sys.stdin = io.TextIOWrapper(io.BufferedReader(io.FileIO(0)), encoding="utf-8")
    sys.stdout = sys.__stdout__ = io.TextIOWrapper(io.BufferedWriter(Out(1, fault, fire)), encoding="utf-8")
    sys.stderr = sys.__stderr__ = io.TextIOWrapper(io.BufferedWriter(Out(2, None, fire)), encoding="utf-8", line_buffering=True)
    if fault and fault["action"] == "read":
        real = builtins.open
        root = os.path.realpath(os.environ["SIM_ROOT"])

        def op(f, mode="r", *a, **k):
            if isinstance(f, (str, bytes, os.PathLike)) and "r" in mode and "+" not in mode and os.path.realpath(os.fsdecode(f)).startswith(root):
                raw = io.BufferedReader(In(os.fsdecode(f), fault["arg"], fire))
                return raw if "b" in mode else io.TextIOWrapper(raw, encoding=k.get("encoding") or "utf-8")
            return real(f, mode, *a, **k)
        builtins.open = op
        io.open = op
    elif fault and fault["action"].startswith("file"):
        # a full disk, or death, at a given byte of the files the program writes
        real = builtins.open
        root = os.path.realpath(os.environ["SIM_ROOT"])

        class Full(Out):
            def __init__(self, path, mode):
                self.path = path
                fd = os.open(path, os.O_WRONLY | os.O_CREAT | (os.O_APPEND if "a" in mode else os.O_TRUNC), 0o644)
                super().__init__(fd, {"action": fault["action"][4:] or "err", "arg": fault["arg"]}, fire)
                self.name = path

            def close(self):
                if not self.closed:
                    super().close()
                    os.close(self.fd)

        def op(f, mode="r", *a, **k):
            if isinstance(f, (str, bytes, os.PathLike)) and ("w" in mode or "a" in mode) and "+" not in mode and os.path.realpath(os.fsdecode(f)).startswith(root):
                raw = io.BufferedWriter(Full(os.fsdecode(f), mode))
                return raw if "b" in mode else io.TextIOWrapper(raw, encoding=k.get("encoding") or "utf-8", newline=k.get("newline"))
            return real(f, mode, *a, **k)
        builtins.open = op
        io.open = op
    random.seed(plan.get("order", 0))
    numpy.random.seed(plan.get("order", 0) % 2**32)
    ForkPool.rng = random.Random(plan.get("order", 0))
    multiprocessing.Pool = ForkPool
    code = 0
    try:
        runpy.run_path(script, run_name="__main__")
    except SystemExit as e:
        if e.code is None:
            code = 0
        elif isinstance(e.code, int):
            code = e.code & 255
        else:
            print(e.code, file=sys.stderr)
            code = 1
    except BaseException:  # noqa
        traceback.print_exc()
        code = 1
    try:
        sys.stdout.flush()
    except (OSError, ValueError) as e:
        print(f"Exception ignored on flushing sys.stdout: {e}", file=sys.stderr)
        code = code or 120
    return code


def handle(conn, fds, payload, nth):
    os.setpgid(0, 0)
    signal.signal(signal.SIGCHLD, signal.SIG_DFL)
    parts = [p.decode("utf-8", "surrogateescape") for p in payload.split(b"\0")[:-1]]
    nf = int(parts[0])
    want, parts = [int(x) for x in parts[1:1 + nf]], parts[1 + nf:]
    # out of the way of the numbers the program expects
    high = [fcntl.fcntl(fd, fcntl.F_DUPFD_CLOEXEC, 300) for fd in fds]
    for fd in fds:
        os.close(fd)
    c = socket.socket(fileno=fcntl.fcntl(conn.fileno(), fcntl.F_DUPFD_CLOEXEC, 300))
    conn.close()
    conn = c
    for fd, w in zip(high, want):
        os.dup2(fd, w)
        os.close(fd)
    cwd, argc = parts[0], int(parts[1])
    argv, env = parts[2:2 + argc], parts[2 + argc:]
    os.chdir(cwd)
    os.environ.clear()
    os.environ.update(e.split("=", 1) for e in env if "=" in e)
    plan = json.loads(os.environ["SIM_PLAN"])
    name = os.path.basename(argv[0])
    what = os.path.basename(argv[1]) if name == "python" and len(argv) > 1 else name
    job = os.environ.get("SIM_JOB")
    fault = None
    for f in plan.get("faults", ()):
        if f["tool"] == what and (str(f["job"]) == job if "job" in f else f.get("nth", 0) == nth(what)):
            fault = f

    def log(s):
        fd = os.open(os.environ["SIM_LOG"], os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
        os.write(fd, (s + "\n").encode())
        os.close(fd)

    fires = []

    def fire():
        # one program fails once, however often it tries
        if not fires:
            log(f"fault {what} {fault['action']} {fault['arg']}")
        fires.append(1)
    if name == "python" and len(argv) > 1:
        code = python(argv, plan, fault, fire, log)
    elif name == "parallel":
        code = parallel(argv, plan, log)
    elif name == "pv":
        while True:
            b = os.read(0, 65536)
            if not b:
                break
            Out.all(type("o", (), {"fd": 1})(), b)
        code = 0
    else:
        code = tool(argv, fault, fire)
    log(f"end {what} {job} {code}")
    # whatever still holds the standard files must not keep the pipeline open
    conn.sendall(struct.pack("<i", code))
    os._exit(0)


def main(path):
    sys.dont_write_bytecode = True
    s = socket.socket(socket.AF_UNIX)
    s.bind(path)
    s.listen(64)
    signal.signal(signal.SIGPIPE, signal.SIG_IGN)
    os.write(1, b"ready\n")
    counts = collections.Counter()
    live = set()

    def reap():
        while live:
            pid, _ = os.waitpid(-1, os.WNOHANG)
            if not pid:
                break
            live.discard(pid)
    while True:
        conn, _ = s.accept()
        reap()
        d, anc, _, _ = conn.recvmsg(4, socket.CMSG_SPACE(4 * 40))
        if not d:
            conn.close()
            continue
        fds = array.array("i")
        for lv, ty, b in anc:
            fds.frombytes(b)
        n = struct.unpack("<I", d)[0]
        payload = b""
        while len(payload) < n:
            b = conn.recv(n - len(payload))
            if not b:
                break
            payload += b
        if payload.startswith((b"reset\0", b"crash\0")):
            if payload[:1] == b"r":
                counts.clear()
            else:
                for pid in live - {int(payload.split(b"\0")[1])}:
                    try:
                        os.killpg(pid, signal.SIGKILL)
                    except ProcessLookupError:
                        os.kill(pid, signal.SIGKILL)
            conn.sendall(struct.pack("<i", 0))
            conn.close()
            for fd in fds:
                os.close(fd)
            continue
        nf = int(payload.split(b"\0", 1)[0])
        parts = payload.split(b"\0", nf + 5)
        name = os.path.basename(parts[nf + 3]).decode()
        if name == "python":
            name = os.path.basename(parts[nf + 4]).decode()
        k = counts[name]
        counts[name] += 1
        pid = os.fork()
        if pid == 0:
            s.close()
            try:
                handle(conn, list(fds), payload, lambda w: k)
            except BaseException:  # noqa
                try:
                    os.write(2, traceback.format_exc().encode())
                    if conn.fileno() >= 0: conn.sendall(struct.pack("<i", 125))
                finally:
                    os._exit(1)
        live.add(pid)
        conn.close()
        for fd in fds:
            os.close(fd)


if __name__ == "__main__":
    main(sys.argv[1])
