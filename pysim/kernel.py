"""A deterministic simulator for Python programs.

One `World` runs one case. Every simulated thread is a real thread, but only the one that holds the
baton runs; the baton changes hands only at points the world decides (lines or opcodes of the code
under test, I/O, locks, calls of simulated services). All choices come from the case's seeds, so a
case is one exactly repeatable execution.
"""
import ast, builtins, collections, copy, errno, functools, gc, hashlib, importlib.machinery, io, os, pickle, random, sys, threading, time, traceback, types, uuid

REPO = os.environ.get("WIMBD_REPO", "/repo")


class SimCrash(BaseException):
    """The process is gone (killed)."""


class SimAbort(BaseException):
    """The run is over (deadlock, step limit)."""


class HarnessError(Exception):
    pass


def mix(*xs):
    h = hashlib.blake2b(repr(xs).encode(), digest_size=8)
    return int.from_bytes(h.digest(), "big")


class Proc:
    argv = None            # its own command line, when several programs run at once

    def __init__(self, world, name):
        self.world = world
        self.name = name
        self.dead = False      # killed
        self.code = None       # exit status
        self.out = []
        self.err = []
        self.threads = []
        self.exc = None

    @property
    def stdout(self):
        return "".join(self.out)

    @property
    def stderr(self):
        return "".join(self.err)


class Thread:
    def __init__(self, world, proc, fn, name, tid):
        self.world, self.proc, self.fn, self.name, self.tid = world, proc, fn, name, tid
        self.sem = threading.Semaphore(0)
        self.pred = None       # blocked while this is false
        self.deadline = None
        self.done = False
        self.stack = 0


_real = types.SimpleNamespace(
    open=builtins.open, Thread=threading.Thread, sleep=time.sleep, time=time.time, replace=os.replace, rename=os.rename,
    remove=os.remove, unlink=os.unlink, mkdir=os.mkdir, makedirs=os.makedirs, listdir=os.listdir, scandir=os.scandir,
    truncate=os.truncate, fsync=os.fsync, rmdir=os.rmdir, uuid4=uuid.uuid4, link=os.link, symlink=os.symlink, io_open=io.open)

WORLD = None  # the world of the case running in this process


class World:
    def __init__(self, root, sched=None, faults=(), io_seed=0, pinned=None, max_steps=2_000_000):
        """sched: {"policy","p","seed","gran","depth","range"}; pinned: recorded decisions {step: tid}"""
        self.root = os.path.realpath(root)
        s = dict(sched or {})
        self.policy = s.get("policy", "serial")
        self.p = s.get("p", 0.0)
        self.gran = s.get("gran", "line")
        self.rng = random.Random(s.get("seed", 0))
        self.io_seed = io_seed
        self.pinned = None if pinned is None else {int(k): v for k, v in pinned.items()}
        self.decisions = {}
        self.steps = 0
        self.max_steps = max_steps
        self.now = 1_700_000_000.0
        self.t0 = self.now
        self.threads = []
        self.cur = None
        self.nlive = 0
        self.driver = threading.Semaphore(0)
        self.verdict = None
        self.faults = [dict(f) for f in faults]
        self.counts = {}
        self.fired = []
        self.ctr = {}
        self.ev = hashlib.blake2b(digest_size=8)
        self.sched_h = hashlib.blake2b(digest_size=8)
        self.fs_left = None
        self.svc = {}
        self.rnd_n = {}
        self.trace = None
        self.step_crash = [f for f in self.faults if f["op"] == "step"]
        self.change = set()
        self.prio = {}
        if self.policy == "pct":
            self.change = {self.rng.randrange(1, s.get("range", 2000)) for _ in range(s.get("depth", 3))}
        if self.policy == "starve":
            self.victim = s.get("victim", 1)
        if self.policy == "burst":
            self.left = self.rng.randrange(1, 2 * s.get("mean", 50))
            self.mean = s.get("mean", 50)
        self.max_threads = 0
        self.states = set()

    # ------------------------------------------------------------- choices
    def note(self, *what):
        self.ev.update(repr(what).encode())
        if self.trace is not None:
            self.trace.append([self.steps, self.cur.tid if self.cur else -1, *[str(w) for w in what]])

    def count(self, k, n=1):
        self.ctr[k] = self.ctr.get(k, 0) + n

    def rand(self, label, n):
        """a number below n; depends on the io seed, the label and how often it was asked only"""
        if n <= 1:
            return 0
        k = self.rnd_n.get(label, 0)
        self.rnd_n[label] = k + 1
        if not self.io_seed:
            return 0
        return mix(self.io_seed, label, k) % n

    def shuffle(self, label, xs):
        xs = list(xs)
        for i in range(len(xs) - 1, 0, -1):
            j = i - self.rand(label, i + 1)
            xs[i], xs[j] = xs[j], xs[i]
        return xs

    # ------------------------------------------------------------- threads
    def spawn(self, proc, fn, name="thread"):
        t = Thread(self, proc, fn, name, len(self.threads))
        self.threads.append(t)
        proc.threads.append(t)
        self.nlive += 1
        self.max_threads = max(self.max_threads, self.nlive)
        self.prio[t.tid] = self.rng.random() + 1

        def boot():
            t.sem.acquire()
            if proc.argv:
                sys.argv = list(proc.argv)
            try:
                if self.verdict is None and not proc.dead:
                    fn()
            except (SimCrash, SimAbort):
                pass
            except BaseException:  # noqa
                if self.verdict is None:
                    self.verdict = ("HARNESS", traceback.format_exc())
            finally:
                self.finish(t)

        th = _real.Thread(target=boot, daemon=True)
        t.real = th
        th.start()
        self.count("threads")
        return t

    def finish(self, t):
        t.done = True
        t.fn = None
        self.nlive -= 1
        self.note("end", t.tid)
        if self.nlive == 0:
            self.cur = None
            self.driver.release()
            return
        self.handoff(t, ended=True)

    def runnable(self):
        r = []
        for t in self.threads:
            if not t.done and (t.pred is None or t.proc.dead or self.verdict or t.pred()):
                r.append(t)
        return r

    def handoff(self, t, ended=False):
        """t cannot go on: somebody else must"""
        self.steps += 1
        while True:
            r = self.runnable()
            if r:
                break
            waits = [x for x in self.threads if not x.done and x.deadline is not None]
            if waits:
                w = min(waits, key=lambda x: (x.deadline, x.tid))
                self.now = max(self.now, w.deadline)
                self.count("timer")
                for x in waits:
                    if x.deadline <= self.now:
                        x.pred, x.deadline = None, None
                continue
            if self.verdict is None:
                self.verdict = ("deadlock", "no thread can run: " + ", ".join(f"{x.name} waits" for x in self.threads if not x.done))
            continue
        nxt = self.pick(r, None)
        self.switch(t, nxt, ended)

    def switch(self, t, nxt, ended=False):
        self.sched_h.update(b"%d>%d@%d;" % (t.tid, nxt.tid, self.steps))
        self.ev.update(b"%d>%d@%d;" % (t.tid, nxt.tid, self.steps))
        if nxt is t:
            return
        self.count("switches")
        self.cur = nxt
        nxt.pred, nxt.deadline = None, None
        nxt.sem.release()
        if not ended:
            t.sem.acquire()
            if t.proc.argv:
                sys.argv = list(t.proc.argv)
            self.alive(t)

    def alive(self, t):
        if self.verdict is not None:
            raise SimAbort()
        if t.proc.dead:
            raise SimCrash()

    def pick(self, r, cur):
        """choose among the runnable; cur: the one running (None when it cannot)"""
        if self.pinned is not None:
            w = self.pinned.get(self.steps)
            for x in r:
                if x.tid == w:
                    return x
            return cur if cur in r else r[0]
        x = None
        if len(r) == 1:
            x = r[0]
        elif self.policy == "pct":
            x = max(r, key=lambda y: self.prio[y.tid])
        elif self.policy == "starve":
            o = [y for y in r if y.tid != self.victim]
            x = self.rng.choice(o) if o else r[0]
            if self.rng.random() < 0.02:
                x = self.rng.choice(r)
        elif self.policy == "serial":
            x = cur if cur in r else r[0]
        else:
            x = self.rng.choice(r)
        d = cur if cur in r else r[0]
        if x is not d:
            self.decisions[self.steps] = x.tid
        return x

    def point(self, kind="line"):
        t = self.cur
        if t is None or threading.get_ident() != t.real.ident:
            return
        self.alive(t)
        self.steps += 1
        if self.steps >= self.max_steps:
            self.verdict = ("step_limit", f"no end within {self.max_steps} steps")
            raise SimAbort()
        if self.step_crash:
            for f in self.step_crash:
                if f["nth"] == self.steps and not f.get("used"):
                    f["used"] = True
                    self.fire(f, "step", "")
                    self.act(f, None)
        if self.nlive < 2:
            return
        if self.pinned is not None:
            if self.steps not in self.pinned:
                return
        elif self.policy == "serial":
            return
        elif self.policy == "pct":
            if self.steps in self.change:
                self.prio[t.tid] = -self.steps
            elif kind == "line":
                return
        elif self.policy == "burst":
            self.left -= 1
            if self.left > 0:
                return
            self.left = self.rng.randrange(1, 2 * self.mean)
        elif self.policy == "starve":
            if t.tid != self.victim and self.rng.random() >= self.p:
                return
        elif self.policy == "io":
            if kind == "line" or self.rng.random() >= self.p:
                return
        elif self.rng.random() >= self.p:
            return
        nxt = self.pick(self.runnable(), t)
        if nxt is not t:
            self.count("preemptions")
            self.switch(t, nxt)

    def block(self, pred, timeout=None):
        """wait until pred() holds"""
        t = self.cur
        self.alive(t)
        self.point("block")
        dl = None if timeout is None else self.now + timeout
        while not pred():
            if dl is not None and self.now >= dl:
                return False
            t.pred, t.deadline = pred, dl
            self.count("blocked")
            self.handoff(t)
            t.pred, t.deadline = None, None
            self.alive(t)
        return True

    # ------------------------------------------------------------- faults
    def fire(self, f, op, path):
        self.fired.append([op, path, f["action"]])
        self.count(f"fault:{op}:{f['action']}")
        self.note("fault", op, path, f["action"])

    def io(self, op, path=""):
        """an I/O or service call; returns the fault to apply to it, if any"""
        self.point("io")
        k = (op, path)
        n = self.counts.get(k, 0)
        self.counts[k] = n + 1
        self.note(op, path, n)
        g = self.counts.get((op, None), 0)
        self.counts[(op, None)] = g + 1
        self.count("io")
        for f in self.faults:
            if f["op"] == op and not f.get("used"):
                if f.get("path") is None:
                    hit = f["nth"] == g
                else:
                    hit = f["path"] in path and self.fault_n(f) == f["nth"]
                if hit:
                    f["used"] = True
                    self.fire(f, op, path)
                    return f
        return None

    def fault_n(self, f):
        n = f.get("seen", 0)
        f["seen"] = n + 1
        return n

    def act(self, f, path):
        a = f["action"]
        if a == "crash":
            self.crash(self.cur.proc)
        if a == "err":
            raise OSError(f.get("arg", errno.EIO), os.strerror(f.get("arg", errno.EIO)), path)
        if a == "interrupt":
            raise KeyboardInterrupt()
        if a == "exc":
            raise EXC[f["arg"]]("injected")
        raise HarnessError(f"unknown action {a}")

    def step(self, op, path=""):
        f = self.io(op, path)
        if f is not None:
            self.act(f, path)

    def crash(self, proc):
        group = getattr(proc, "group", [proc])
        for p in group:
            p.dead = True
        self.count("crashes")
        raise SimCrash()

    # ------------------------------------------------------------- running programs
    def run(self, main, name="main", budget_s=60):
        """runs main() as the main thread of a new process, to the end; returns the process"""
        proc = Proc(self, name)
        proc.group = [proc]

        def body():
            try:
                try:
                    main()
                    proc.code = 0
                except SystemExit as e:
                    proc.code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
                    if proc.code == 1 and not isinstance(e.code, int):
                        proc.err.append(str(e.code))
                for h in getattr(proc, "atexit", []):
                    h()
            except (SimCrash, SimAbort):
                raise
            except KeyboardInterrupt:
                proc.code = 130
            except BaseException as e:  # noqa
                self.guard(e)
                proc.code = 1
                proc.exc = e
                proc.err.append("".join(traceback.format_exception(e)))
                e.__traceback__ = None
                for h in getattr(proc, "atexit", []):
                    h()

        self.verdict = None
        t = self.spawn(proc, body, name)
        self.cur = t
        t.sem.release()
        if not self.driver.acquire(timeout=budget_s):
            self.verdict = ("HARNESS", "the simulation itself hangs:\n" + stacks())
        if self.verdict and self.verdict[0] == "HARNESS":
            raise HarnessError(self.verdict[1])
        for x in proc.threads:
            x.real.join(5)
        self.threads = []
        return proc

    def guard(self, e):
        if isinstance(e, HarnessError):
            self.verdict = ("HARNESS", "".join(traceback.format_exception(e)))


def stacks():
    return "\n".join("".join(traceback.format_stack(f)) for f in sys._current_frames().values())


class Injected(Exception):
    pass


EXC = {"Injected": Injected, "ConnectionError": ConnectionError, "TimeoutError": TimeoutError, "RuntimeError": RuntimeError,
       "MemoryError": MemoryError}


# ----------------------------------------------------------------- files

def sim_path(p):
    """path inside the scratch directory, relative to it, or None"""
    w = WORLD
    if w is None or w.cur is None or isinstance(p, int):
        return None
    try:
        p = os.fsdecode(os.fspath(p))
    except TypeError:
        return None
    a = os.path.normpath(os.path.join(os.getcwd(), p))
    if a == w.root or a.startswith(w.root + "/"):
        return os.path.relpath(a, w.root)
    return None


class SimFileIO(io.FileIO):
    """the lowest layer of an open file: every read and write passes here"""

    def __init__(self, path, mode, rel, opener=None, closefd=True):
        self._rel = rel
        self._proc = WORLD.cur.proc
        self._w = WORLD
        super().__init__(path, mode, closefd, opener)

    def _gone(self):
        return self._proc.dead or self._w.cur is None or self._w.verdict is not None or threading.get_ident() != self._w.cur.real.ident

    def write(self, b):
        w = self._w
        if self._gone():
            return len(b)  # the process is dead: nothing reaches the disk any more
        f = w.io("write", self._rel)
        n = len(b)
        if f is not None:
            a = f["action"]
            if a == "torn":
                super().write(bytes(b)[:min(n, f.get("arg", 0))])
                w.crash(self._proc)
            elif a == "full":
                k = min(n, f.get("arg", 0))
                super().write(bytes(b)[:k])
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
            elif a == "short":
                n = max(1, min(n, f.get("arg", 1)))
            else:
                w.act(f, self._rel)
        if w.fs_left is not None:
            if n > w.fs_left:
                super().write(bytes(b)[:w.fs_left])
                w.fs_left = 0
                w.count("fault:disk_full")
                raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC))
            w.fs_left -= n
        return super().write(bytes(b)[:n])

    def _rd(self):
        if self._gone():
            return
        f = self._w.io("read", self._rel)
        if f is not None:
            self._w.act(f, self._rel)

    def readinto(self, b):
        self._rd()
        return super().readinto(b)

    def read(self, n=-1):
        self._rd()
        return super().read(n)

    def readall(self):
        self._rd()
        return super().readall()

    def close(self):
        if not self.closed and not self._gone():
            f = self._w.io("close", self._rel) if self.writable() else None
            if f is not None:
                super().close()
                self._w.act(f, self._rel)
        super().close()


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if isinstance(file, int) and not isinstance(file, bool) and WORLD is not None and WORLD.cur is not None:
        try:
            rel = sim_path(os.readlink(f"/proc/self/fd/{file}"))
        except OSError:
            rel = None
    else:
        rel = sim_path(file)
    if rel is None:
        return _real.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    w = WORLD
    writing = any(c in mode for c in "wax+")
    f = w.io("open_w" if writing else "open_r", rel)
    if f is not None:
        w.act(f, rel)
    if w.cur.proc.dead:
        raise SimCrash()
    binary = "b" in mode
    raw = SimFileIO(file, "".join(c for c in mode if c not in "bt"), rel, opener, closefd)
    if writing:
        f = w.io("opened_w", rel)
        if f is not None:
            w.act(f, rel)
    try:
        line_buffering = False
        if buffering == 1:
            buffering = -1
            line_buffering = True
        if buffering < 0:
            buffering = 8192
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        if "+" in mode:
            buf = io.BufferedRandom(raw, buffering)
        elif writing:
            buf = io.BufferedWriter(raw, buffering)
        else:
            buf = io.BufferedReader(raw, buffering)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering)
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


def _wrap2(op, real):
    def fn(src, dst, **k):
        r = sim_path(dst)
        if r is None:
            return real(src, dst, **k)
        WORLD.step(op, r)
        if WORLD.cur.proc.dead:
            raise SimCrash()
        x = real(src, dst, **k)
        f = WORLD.io(op + "d", r)
        if f is not None:
            WORLD.act(f, r)
        return x
    return fn


def _wrap1(op, real):
    def fn(path, *a, **k):
        r = sim_path(path)
        if r is None:
            return real(path, *a, **k)
        WORLD.step(op, r)
        if WORLD.cur.proc.dead:
            raise SimCrash()
        return real(path, *a, **k)
    return fn


def _listdir(path="."):
    r = sim_path(path)
    xs = _real.listdir(path)
    if r is None:
        return xs
    WORLD.step("listdir", r)
    return WORLD.shuffle("listdir", sorted(xs))


class _Scan:
    def __init__(self, xs):
        self.xs = iter(xs)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self.xs)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass


def _scandir(path="."):
    r = sim_path(path)
    if r is None:
        return _real.scandir(path)
    WORLD.step("listdir", r)
    with _real.scandir(path) as it:
        xs = sorted(it, key=lambda e: e.name)
    return _Scan(WORLD.shuffle("listdir", xs))


class _Std:
    """stdout or stderr of the running simulated process"""
    encoding = "utf-8"
    errors = "strict"

    def __init__(self, which, real):
        self.which, self.real = which, real

    def write(self, s):
        w = WORLD
        if w is None or w.cur is None or threading.get_ident() != w.cur.real.ident:
            return self.real.write(s)
        p = w.cur.proc
        if p.dead:
            return len(s)
        if self.which == "out":
            f = w.io("stdout", "")
            if f is not None:
                w.act(f, "<stdout>")
            p.out.append(s)
        else:
            p.err.append(s)
        return len(s)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def flush(self):
        if WORLD is None or WORLD.cur is None:
            self.real.flush()

    def isatty(self):
        return False

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    @property
    def buffer(self):
        return _StdBytes(self)


class _StdBytes:
    def __init__(self, std):
        self.std = std

    def write(self, b):
        self.std.write(bytes(b).decode("utf-8", "surrogateescape"))
        return len(b)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def flush(self):
        self.std.flush()


def sim_uuid4():
    w = WORLD
    if w is None or w.cur is None:
        return _real.uuid4()
    n = w.rnd_n["uuid"] = w.rnd_n.get("uuid", 0) + 1
    return uuid.UUID(bytes=hashlib.blake2b(f"{w.io_seed} {w.run_no} {n}".encode(), digest_size=16).digest(), version=4)


def install_files():
    uuid.uuid4 = sim_uuid4
    import shutil as sh
    sh._use_fd_functions = False
    builtins.open = sim_open
    io.open = sim_open
    import tempfile
    ns = types.SimpleNamespace(**{k: getattr(io, k) for k in dir(io) if not k.startswith("__")})
    ns.open = sim_open
    ns.text_encoding = io.text_encoding
    tempfile._io = ns

    class Names:
        rng = None

        def __iter__(self):
            return self

        def __next__(self):
            w = WORLD
            w_n = w.rnd_n.get("tmp", 0)
            w.rnd_n["tmp"] = w_n + 1
            return f"t{os.getpid() % 1:d}{w_n:06d}"
    tempfile._name_sequence = Names()
    os.replace = _wrap2("replace", _real.replace)
    os.rename = _wrap2("replace", _real.rename)
    os.link = _wrap2("replace", _real.link)
    os.remove = _wrap1("remove", _real.remove)
    os.unlink = _wrap1("remove", _real.unlink)
    os.rmdir = _wrap1("remove", _real.rmdir)
    os.mkdir = _wrap1("mkdir", _real.mkdir)
    os.truncate = _wrap1("truncate", _real.truncate)
    os.listdir = _listdir
    os.scandir = _scandir
    import glob, shutil, pathlib
    for m in (glob, shutil, pathlib):
        if hasattr(m, "os"):
            m.os = os
    sys.stdout = _Std("out", sys.stdout)
    sys.stderr = _Std("err", sys.stderr)


# ----------------------------------------------------------------- time

def install_time():
    import datetime as dt

    def now():
        return WORLD.now if WORLD is not None and WORLD.cur is not None else _real.time()

    def sleep(s):
        w = WORLD
        if w is None or w.cur is None:
            return _real.sleep(s)
        w.count("sleeps")
        if s > 0:
            w.block(lambda: False, s)

    time.time = now
    time.monotonic = now
    time.perf_counter = now
    time.sleep = sleep

    real = dt.datetime

    class SimDatetime(real):
        @classmethod
        def utcnow(cls):
            return real.fromtimestamp(now(), dt.timezone.utc).replace(tzinfo=None)

        @classmethod
        def now(cls, tz=None):
            return real.fromtimestamp(now(), tz or dt.timezone.utc)
    SimDatetime.__name__ = "datetime"
    dt.datetime = SimDatetime


# ----------------------------------------------------------------- threads, locks, processes

SHARED = ()


class Lock:
    reentrant = False

    def __init__(self):
        self.owner = None
        self.depth = 0

    def acquire(self, blocking=True, timeout=None, block=None):
        w = WORLD
        if block is not None:
            blocking = block
        me = w.cur
        if timeout is not None and timeout < 0:
            timeout = None
        if self.reentrant and self.owner is me:
            self.depth += 1
            return True
        w.point("lock")
        if not blocking:
            if self.owner is not None:
                return False
        elif not w.block(lambda: self.owner is None, timeout):
            return False
        self.owner = me
        self.depth = 1
        return True

    def release(self):
        if self.owner is None:
            if WORLD.cur is not None and (WORLD.cur.proc.dead or WORLD.verdict):
                return
            raise ValueError("semaphore or lock released too many times")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
        t = WORLD.cur
        if t is not None and not t.proc.dead and not WORLD.verdict:
            WORLD.point("lock")

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()
        return False


class RLock(Lock):
    reentrant = True


class SharedLock(Lock):
    """a lock that processes share"""


class SharedRLock(RLock):
    pass


class Semaphore:
    def __init__(self, value=1):
        self.v = value

    def acquire(self, blocking=True, timeout=None):
        if not WORLD.block(lambda: self.v > 0, timeout if blocking else 0):
            return False
        self.v -= 1
        return True

    def release(self, n=1):
        self.v += n

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class Event:
    def __init__(self):
        self.f = False

    def set(self):
        self.f = True
        WORLD.point("lock")

    def clear(self):
        self.f = False

    def is_set(self):
        return self.f

    def wait(self, timeout=None):
        return WORLD.block(lambda: self.f, timeout)


class Future:
    def __init__(self):
        self.state = "PENDING"
        self._r = None
        self._e = None
        self._cbs = []
        WORLD.rnd_n["future"] = self._h = WORLD.rnd_n.get("future", 0) + 1

    def __hash__(self):     # so that sets of futures have an order that repeats
        return self._h

    def done(self):
        return self.state in ("FINISHED", "CANCELLED")

    def running(self):
        return self.state == "RUNNING"

    def cancelled(self):
        return self.state == "CANCELLED"

    def cancel(self):
        if self.state != "PENDING":
            return False
        self.state = "CANCELLED"
        return True

    def result(self, timeout=None):
        if not WORLD.block(self.done, timeout):
            raise TimeoutError()
        if self.state == "CANCELLED":
            raise CancelledError()
        if self._e is not None:
            raise self._e
        return self._r

    def exception(self, timeout=None):
        if not WORLD.block(self.done, timeout):
            raise TimeoutError()
        return self._e

    def add_done_callback(self, fn):
        if self.done():
            fn(self)
        else:
            self._cbs.append(fn)

    def set(self, r=None, e=None):
        self._r, self._e = r, e
        self.state = "FINISHED"
        for c in self._cbs:
            c(self)


class CancelledError(Exception):
    pass


class Executor:
    """concurrent.futures.ThreadPoolExecutor"""

    def __init__(self, max_workers=None, thread_name_prefix="", initializer=None, initargs=(), **_):
        self.n = max_workers or 5
        if self.n <= 0:
            raise ValueError("max_workers must be greater than 0")
        self.q = []
        self.stop = False
        self.live = []
        self.idle = 0
        self.init = (initializer, initargs)
        self.proc = WORLD.cur.proc
        if not hasattr(self.proc, "atexit"):
            self.proc.atexit = []
        self.proc.atexit.append(lambda: self.shutdown())

    def submit(self, fn, /, *a, **k):
        if self.stop:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = Future()
        self.q.append((f, fn, a, k))
        if self.idle < len(self.q) and len(self.live) < self.n:
            self.live.append(WORLD.spawn(self.proc, self._work, f"pool{len(self.live)}"))
        WORLD.point("submit")
        return f

    def _work(self):
        w = WORLD
        if self.init[0]:
            self.init[0](*self.init[1])
        while True:
            self.idle += 1
            w.block(lambda: bool(self.q) or self.stop)
            self.idle -= 1
            if not self.q:
                return
            f, fn, a, k = self.q.pop(0)
            if f.state == "CANCELLED":
                continue
            f.state = "RUNNING"
            try:
                r = fn(*a, **k)
            except (SimCrash, SimAbort):
                raise
            except BaseException as e:  # noqa
                w.guard(e)
                f.set(e=e)
            else:
                f.set(r)

    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*its)]

        def gen():
            for f in fs:
                yield f.result()
        return gen()

    def shutdown(self, wait=True, cancel_futures=False):
        self.stop = True
        if cancel_futures:
            for f, *_ in self.q:
                f.cancel()
            self.q.clear()
        if wait:
            WORLD.block(lambda: all(t.done for t in self.live))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.shutdown()
        return False


def as_completed(fs, timeout=None):
    left = list(fs)
    while left:
        WORLD.block(lambda: any(f.done() for f in left))
        ready = [f for f in left if f.done()]
        f = ready[WORLD.rand("as_completed", len(ready))]
        left.remove(f)
        yield f


def wait(fs, timeout=None, return_when="ALL_COMPLETED"):
    fs = list(fs)
    if return_when == "ALL_COMPLETED":
        WORLD.block(lambda: all(f.done() for f in fs), timeout)
    elif return_when == "FIRST_EXCEPTION":
        WORLD.block(lambda: all(f.done() for f in fs) or any(f.done() and f._e for f in fs), timeout)
    else:
        WORLD.block(lambda: any(f.done() for f in fs), timeout)
    return DoneAndNotDone({f for f in fs if f.done()}, {f for f in fs if not f.done()})


DoneAndNotDone = collections.namedtuple("DoneAndNotDoneFutures", "done not_done")


class SimThread:
    n = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.args, self.kwargs, self.daemon = target, args, kwargs or {}, daemon
        self.name = name or "Thread"
        self.t = None

    def run(self):
        if self.target:
            self.target(*self.args, **self.kwargs)

    def start(self):
        proc = WORLD.cur.proc
        if not hasattr(proc, "atexit"):
            proc.atexit = []

        def body():
            try:
                self.run()
            except (SimCrash, SimAbort):
                raise
            except BaseException as e:  # noqa
                WORLD.guard(e)
                proc.err.append("".join(traceback.format_exception(e)))
        self.t = WORLD.spawn(proc, body, self.name)
        if not self.daemon:
            proc.atexit.append(self.join)
        WORLD.point("submit")

    def join(self, timeout=None):
        WORLD.block(lambda: self.t.done, timeout)

    def is_alive(self):
        return self.t is not None and not self.t.done


# --- processes: a forked process has its own copy of the globals of the code under test

def fork_namespace(ns, extra):
    """a copy of ns as a forked process has it: own values, shared memory shared"""
    memo = {}
    new = {}
    for v in list(ns.values()) + list(extra):
        keep(v, memo)
    for k, v in ns.items():
        if isinstance(v, types.FunctionType) and v.__globals__ is ns:
            f = types.FunctionType(v.__code__, new, v.__name__, v.__defaults__, v.__closure__)
            f.__kwdefaults__ = v.__kwdefaults__
            f.__dict__.update(v.__dict__)
            memo[id(v)] = f
            new[k] = f
    for k, v in ns.items():
        if k not in new:
            new[k] = fork_value(v, memo)
    return new, [fork_value(v, memo) for v in extra]


def keep(v, memo):
    if isinstance(v, shared_types()):
        memo[id(v)] = v


def shared_types():
    import numpy as np
    return (SharedLock, SharedRLock, SharedValue, SharedArray, np.memmap, Queue)


def fork_value(v, memo):
    if isinstance(v, (types.ModuleType, type, types.BuiltinFunctionType)) or v is None:
        return v
    if isinstance(v, shared_types()):
        return v
    if isinstance(v, types.FunctionType):
        return memo.get(id(v), v)
    try:
        return copy.deepcopy(v, memo)
    except Exception:
        return v


class SharedValue:
    def __init__(self, v=0):
        self._v = v
        self.lock = SharedRLock()

    @property
    def value(self):
        WORLD.point("shared")
        return self._v

    @value.setter
    def value(self, v):
        WORLD.point("shared")
        self._v = v

    def get_lock(self):
        return self.lock


class SharedArray:
    def __init__(self, xs):
        self.xs = list(xs)
        self.lock = SharedRLock()

    def get_lock(self):
        return self.lock

    def __getitem__(self, i):
        WORLD.point("shared")
        return self.xs[i]

    def __setitem__(self, i, v):
        WORLD.point("shared")
        self.xs[i] = v

    def __len__(self):
        return len(self.xs)


class Queue:
    def __init__(self, maxsize=0):
        self.q = []
        self.m = maxsize

    def put(self, x, block=True, timeout=None):
        WORLD.block(lambda: not self.m or len(self.q) < self.m)
        self.q.append(pickle_copy(x))
        WORLD.point("queue")

    def get(self, block=True, timeout=None):
        if not WORLD.block(lambda: bool(self.q), timeout if block else 0):
            import queue
            raise queue.Empty()
        return self.q.pop(0)

    def empty(self):
        return not self.q

    def qsize(self):
        return len(self.q)

    def close(self):
        pass

    def join_thread(self):
        pass


class ThreadQueue(Queue):
    """queue.Queue"""

    def __init__(self, maxsize=0):
        super().__init__(maxsize)
        self.undone = 0

    def put(self, x, block=True, timeout=None):
        if not WORLD.block(lambda: self.m <= 0 or len(self.q) < self.m, timeout if block else 0):
            import queue
            raise queue.Full()
        self.q.append(x)
        self.undone += 1
        WORLD.point("queue")

    def put_nowait(self, x):
        self.put(x, False)

    def get_nowait(self):
        return self.get(False)

    def full(self):
        return 0 < self.m <= len(self.q)

    def task_done(self):
        self.undone -= 1
        WORLD.point("queue")

    def join(self):
        WORLD.block(lambda: self.undone <= 0)


class Condition:
    def __init__(self, lock=None):
        self.lock = lock or RLock()
        self.waiters = []
        self.acquire, self.release = self.lock.acquire, self.lock.release

    def wait(self, timeout=None):
        me = [False]
        self.waiters.append(me)
        d, self.lock.depth = self.lock.depth, 1
        self.lock.release()
        r = WORLD.block(lambda: me[0], timeout)
        if me in self.waiters:
            self.waiters.remove(me)
        self.lock.acquire()
        self.lock.depth = d
        return r

    def wait_for(self, pred, timeout=None):
        while not pred():
            if not self.wait(timeout):
                return pred()
        return True

    def notify(self, n=1):
        for x in self.waiters[:n]:
            x[0] = True
        del self.waiters[:n]

    def notify_all(self):
        self.notify(len(self.waiters))

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()
        return False


def pickle_copy(x):
    try:
        return pickle.loads(pickle.dumps(x))
    except Exception:
        return copy.deepcopy(x)


class AsyncResult(Future):
    def get(self, timeout=None):
        return self.result(timeout)

    def ready(self):
        return self.done()

    def successful(self):
        return self._e is None

    def wait(self, timeout=None):
        WORLD.block(self.done, timeout)


def rebind(fn, ns):
    """the function as the forked process knows it"""
    if isinstance(fn, functools.partial):
        return functools.partial(rebind(fn.func, ns), *fn.args, **fn.keywords)
    f = ns.get(getattr(fn, "__name__", ""), fn)
    if not callable(f) or getattr(f, "__qualname__", None) != getattr(fn, "__qualname__", None):
        return fn
    return f


class Pool:
    """multiprocessing.Pool with the fork start method"""

    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, **_):
        self.n = processes if processes is not None else WORLD_CPUS
        if self.n < 1:
            raise ValueError("Number of processes must be at least 1")
        w = WORLD
        self.parent = w.cur.proc
        self.q = []
        self.closed = False
        self.workers = []
        fr = sys._getframe(1)
        while fr is not None and not fr.f_code.co_filename.startswith(REPO):
            fr = fr.f_back
        self.ns = fr.f_globals if fr is not None else {}
        for i in range(self.n):
            p = Proc(w, f"worker{i}")
            p.group = self.parent.group
            p.group.append(p)
            extra = [initializer] + list(initargs)
            ns, ex = fork_namespace(self.ns, extra)
            if initializer is not None:
                ex[0] = ns.get(initializer.__name__, ex[0])
            self.workers.append((p, w.spawn(p, lambda ns=ns, ex=ex, p=p: self._work(ns, ex, p), p.name)))
            w.count("processes")
        w.point("submit")

    def _work(self, ns, ex, p):
        w = WORLD
        if ex[0] is not None:
            try:
                ex[0](*ex[1:])
            except (SimCrash, SimAbort):
                raise
            except BaseException as e:  # noqa
                # the real pool starts worker after worker, none of which ever takes a task
                w.guard(e)
                p.code = 1
                return
        while True:
            w.block(lambda: bool(self.q) or self.closed)
            if not self.q:
                p.code = 0
                return
            r, fn, a, k = self.q.pop(0)
            r.state = "RUNNING"
            f = rebind(fn, ns)
            try:
                v = pickle_copy(f(*a, **k))
            except (SimCrash, SimAbort):
                raise
            except BaseException as e:  # noqa
                w.guard(e)
                if isinstance(e, SystemExit):
                    continue
                r.set(e=e)
            else:
                r.set(v)
            w.point("submit")

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        if self.closed:
            raise ValueError("Pool not running")
        r = AsyncResult()
        if callback or error_callback:
            r.add_done_callback(lambda f: (callback(f._r) if callback and f._e is None else None, error_callback(f._e) if error_callback and f._e else None))
        self.q.append((r, func, pickle_copy(tuple(args)), pickle_copy(dict(kwds or {}))))
        WORLD.point("submit")
        return r

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def map_async(self, func, it, chunksize=None):
        rs = [self.apply_async(func, (x,)) for x in it]
        out = AsyncResult()
        out.done = lambda: all(r.done() for r in rs)
        out.result = lambda timeout=None: [r.get() for r in rs]
        return out

    def map(self, func, it, chunksize=None):
        return [r.get() for r in [self.apply_async(func, (x,)) for x in it]]

    def starmap_async(self, func, it, chunksize=None):
        rs = [self.apply_async(func, tuple(x)) for x in it]
        out = AsyncResult()
        out.done = lambda: all(r.done() for r in rs)
        out.result = lambda timeout=None: [r.get() for r in rs]
        return out

    def starmap(self, func, it, chunksize=None):
        return [r.get() for r in [self.apply_async(func, tuple(x)) for x in it]]

    def imap(self, func, it, chunksize=1):
        rs = [self.apply_async(func, (x,)) for x in it]
        return (r.get() for r in rs)

    def imap_unordered(self, func, it, chunksize=1):
        rs = [self.apply_async(func, (x,)) for x in it]
        return (f.get() for f in as_completed(rs))

    def close(self):
        self.closed = True

    def terminate(self):
        self.closed = True
        self.q.clear()
        for p, t in self.workers:
            if not t.done:
                p.dead = True
        w = WORLD
        if not self.parent.dead:
            w.block(lambda: all(t.done for _, t in self.workers))

    def join(self):
        if not self.closed:
            raise ValueError("Pool is still running")
        WORLD.block(lambda: all(t.done for _, t in self.workers))

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if WORLD.verdict is None and not self.parent.dead:
            self.terminate()
        return False


class ProcessExecutor:
    """concurrent.futures.ProcessPoolExecutor"""

    def __init__(self, max_workers=None, mp_context=None, initializer=None, initargs=(), **_):
        self.pool = Pool(max_workers, initializer, initargs)

    def submit(self, fn, /, *a, **k):
        return self.pool.apply_async(fn, a, k)

    def map(self, fn, *its, timeout=None, chunksize=1):
        fs = [self.submit(fn, *a) for a in zip(*its)]
        return (f.result() for f in fs)

    def shutdown(self, wait=True, cancel_futures=False):
        self.pool.close()
        if wait:
            self.pool.join()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if WORLD.verdict is None and not self.pool.parent.dead:
            self.shutdown()
        return False


class Process:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, daemon=None):
        self.target, self.args, self.kwargs, self.name, self.daemon = target, args, kwargs or {}, name or "Process", daemon
        self.t = None
        self.exitcode = None

    def start(self):
        w = WORLD
        parent = w.cur.proc
        p = Proc(w, self.name)
        p.group = parent.group
        p.group.append(p)
        fr = sys._getframe(1)
        while fr is not None and not fr.f_code.co_filename.startswith(REPO):
            fr = fr.f_back
        ns, ex = fork_namespace(fr.f_globals if fr else {}, list(self.args))
        f = ns.get(getattr(self.target, "__name__", ""), self.target)

        def body():
            try:
                f(*ex, **self.kwargs)
                self.exitcode = 0
            except (SimCrash, SimAbort):
                raise
            except BaseException as e:  # noqa
                w.guard(e)
                self.exitcode = 1
                parent.err.append("".join(traceback.format_exception(e)))
        self.t = w.spawn(p, body, self.name)
        w.point("submit")

    def join(self, timeout=None):
        WORLD.block(lambda: self.t.done, timeout)

    def is_alive(self):
        return self.t is not None and not self.t.done


WORLD_CPUS = 4


def mp_module():
    m = types.ModuleType("multiprocessing")
    m.Pool = Pool
    m.Process = Process
    m.Lock = SharedLock
    m.RLock = SharedRLock
    m.Semaphore = Semaphore
    m.Event = Event
    m.Queue = Queue
    m.SimpleQueue = Queue
    m.JoinableQueue = Queue
    m.Value = lambda typ, v=0, lock=True: SharedValue(v)
    m.Array = lambda typ, v, lock=True: SharedArray([0] * v if isinstance(v, int) else v)
    m.cpu_count = lambda: WORLD_CPUS
    m.current_process = lambda: WORLD.cur.proc
    m.get_context = lambda *a: m
    m.set_start_method = lambda *a, **k: None
    m.freeze_support = lambda: None

    class Manager:
        def __enter__(self):
            return self

        def __exit__(self, *a):
            return False
        Lock = staticmethod(SharedLock)
        Value = staticmethod(lambda t, v=0: SharedValue(v))
        Queue = staticmethod(Queue)
    m.Manager = Manager
    pool = types.ModuleType("multiprocessing.pool")
    pool.ThreadPool = Executor
    pool.Pool = Pool
    m.pool = pool
    m.__path__ = []
    return {"multiprocessing": m, "multiprocessing.pool": pool}


def cf_module():
    c = types.ModuleType("concurrent")
    f = types.ModuleType("concurrent.futures")
    f.ThreadPoolExecutor = Executor
    f.ProcessPoolExecutor = ProcessExecutor
    f.thread = types.ModuleType("concurrent.futures.thread")
    f.thread.ThreadPoolExecutor = Executor
    f.process = types.ModuleType("concurrent.futures.process")
    f.process.ProcessPoolExecutor = ProcessExecutor
    f.__path__ = []
    f.as_completed = as_completed
    f.wait = wait
    f.Future = Future
    f.CancelledError = CancelledError
    f.TimeoutError = TimeoutError
    f.ALL_COMPLETED, f.FIRST_COMPLETED, f.FIRST_EXCEPTION = "ALL_COMPLETED", "FIRST_COMPLETED", "FIRST_EXCEPTION"
    c.futures = f
    c.__path__ = []
    return {"concurrent": c, "concurrent.futures": f, "concurrent.futures.thread": f.thread, "concurrent.futures.process": f.process}


def threading_module():
    m = types.ModuleType("threading")
    m.__dict__.update({k: v for k, v in threading.__dict__.items() if not k.startswith("__")})
    m.Lock, m.RLock, m.Thread, m.Event, m.Semaphore, m.BoundedSemaphore = Lock, RLock, SimThread, Event, Semaphore, Semaphore
    m.Condition = Condition
    import queue
    q = types.ModuleType("queue")
    q.__dict__.update({k: v for k, v in queue.__dict__.items() if not k.startswith("__")})
    q.Queue = q.SimpleQueue = ThreadQueue
    return {"threading": m, "queue": q}


# ----------------------------------------------------------------- programs

class Instrument(ast.NodeTransformer):
    """adds preemption points: one before every statement, one after every call, attribute or item read"""

    def expr(self, n):
        return ast.copy_location(ast.Call(ast.copy_location(ast.Name("__sim_expr__", ast.Load()), n), [n], []), n)

    def visit_Call(self, n):
        self.generic_visit(n)
        return self.expr(n)

    def visit_Subscript(self, n):
        self.generic_visit(n)
        return self.expr(n) if isinstance(n.ctx, ast.Load) else n

    visit_Attribute = visit_Subscript

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        n.value = self.expr(n.value)
        return n

    def visit_Constant(self, n):
        # fixed paths of the authors' machines are moved into the scratch directory of the case
        if isinstance(n.value, str) and n.value.startswith("/home/"):
            return ast.copy_location(ast.Call(ast.copy_location(ast.Name("__sim_root__", ast.Load()), n), [n], []), n)
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        n.values = [ast.copy_location(ast.FormattedValue(x, -1, None), n) if isinstance(x, ast.Call) else x for x in n.values]
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    def visit_arguments(self, n):
        n.defaults = [self.visit(x) for x in n.defaults]
        n.kw_defaults = [self.visit(x) if x is not None else None for x in n.kw_defaults]
        return n

    def visit_FunctionDef(self, n):
        self.visit_arguments(n.args)
        n.body = self.block(n.body)
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        n.body = self.block(n.body)
        return n

    def visit_Module(self, n):
        n.body = self.block(n.body)
        return n

    def visit_match_case(self, n):
        if n.guard is not None:
            n.guard = self.visit(n.guard)
        n.body = self.block(n.body)
        return n

    def block(self, body):
        out = []
        for i, x in enumerate(body):
            first = i == 0 and isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)
            if not first and not (isinstance(x, ast.ImportFrom) and x.module == "__future__"):
                out.append(ast.copy_location(ast.Expr(ast.copy_location(ast.Call(ast.copy_location(ast.Name("__sim_line__", ast.Load()), x), [], []), x)), x))
            y = self.visit(x)
            out.append(y)
        return out

    def generic_visit(self, n):
        for f, v in ast.iter_fields(n):
            if isinstance(v, list):
                if v and isinstance(v[0], ast.stmt):
                    setattr(n, f, self.block(v))
                else:
                    setattr(n, f, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
            elif isinstance(v, ast.AST):
                setattr(n, f, self.visit(v))
        return n


def sim_line():
    w = WORLD
    if w is not None and w.cur is not None:
        w.point("line")


def sim_expr(x):
    w = WORLD
    if w is not None and w.cur is not None and w.gran != "line":
        w.point("line")
    return x


def sim_root(p):
    w = WORLD
    return w.svc["root"] + p if w is not None and w.cur is not None and "root" in w.svc else p


builtins.__sim_root__ = sim_root
builtins.__sim_line__ = sim_line
builtins.__sim_expr__ = sim_expr
_code = {}


def load_code(path):
    c = _code.get(path)
    if c is None:
        with _real.open(path, "rb") as f:
            tree = ast.parse(f.read(), path)
        c = compile(ast.fix_missing_locations(Instrument().visit(tree)), path, "exec")
        _code[path] = c
    return c


class SimLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        return load_code(self.path)


class SimFinder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and spec.origin and spec.origin.startswith(REPO + "/") and spec.origin.endswith(".py"):
            spec.loader = SimLoader(spec.loader.name, spec.loader.path)
            return spec
        return None

    @staticmethod
    def invalidate_caches():
        pass


sys.meta_path.insert(0, SimFinder)


def drop_repo_modules():
    for k, m in list(sys.modules.items()):
        if (getattr(m, "__file__", None) or "").startswith(REPO + "/") or k == "wimbd" or k.startswith("wimbd."):
            del sys.modules[k]


def program(path, argv, mods, env=None, name="__main__"):
    """a main() that runs a script of the repository as __main__"""
    def main():
        saved = {k: sys.modules.get(k) for k in mods}
        argv0, env0, main0, path0 = sys.argv, dict(os.environ), sys.modules.get("__main__"), list(sys.path)
        sys.modules.update(mods)
        drop_repo_modules()
        m = types.ModuleType(name)
        m.__file__ = path
        m.__builtins__ = builtins
        sys.argv = [path] + list(argv)
        sys.path[:0] = [os.path.dirname(path), REPO]
        os.environ.update(env or {})
        sys.modules["__main__"] = m
        try:
            exec(load_code(path), m.__dict__)
        finally:
            sys.modules["__main__"] = main0
            for k, v in saved.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v
            sys.argv, sys.path[:] = argv0, path0
            os.environ.clear()
            os.environ.update(env0)
            WORLD_CLEAN(m)
    return main


def programs(jobs, mods, preload=()):
    """a main() that runs several scripts of the repository (path, argv) at once, each as a process; results in world.jobs"""
    def main():
        w = WORLD
        saved = {k: sys.modules.get(k) for k in mods}
        argv0, path0 = sys.argv, list(sys.path)
        sys.modules.update(mods)
        drop_repo_modules()
        sys.path[:0] = [REPO]
        parent = w.cur.proc
        try:
            for m in preload:
                importlib.import_module(m)
            ts = []
            w.jobs = []
            for path, argv in jobs:
                p = Proc(w, os.path.basename(path))
                p.group = parent.group
                p.group.append(p)
                p.argv = [path] + list(argv)
                w.jobs.append(p)

                def body(p=p, path=path):
                    m = types.ModuleType("__main__")
                    m.__file__ = path
                    m.__builtins__ = builtins
                    try:
                        exec(load_code(path), m.__dict__)
                        p.code = 0
                    except SystemExit as e:
                        p.code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
                    except (SimCrash, SimAbort):
                        raise
                    except BaseException as e:  # noqa
                        w.guard(e)
                        p.code = 1
                        p.err.append("".join(traceback.format_exception(e)))
                        e.__traceback__ = None
                    WORLD_CLEAN(m)
                ts.append(w.spawn(p, body, p.name))
            w.block(lambda: all(t.done for t in ts))
        finally:
            sys.argv, sys.path[:] = argv0, path0
            for k, v in saved.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v
    return main


def WORLD_CLEAN(m):
    # objects of a finished program are finalised while it still counts as running: open files are flushed
    w = WORLD
    if w.cur is not None and not w.cur.proc.dead and w.verdict is None:
        m.__dict__.clear()
        gc.collect()


def call(fn, mods):
    """a main() that calls fn() with the simulated modules in place (for library functions)"""
    def main():
        saved = {k: sys.modules.get(k) for k in mods}
        sys.modules.update(mods)
        drop_repo_modules()
        p0 = list(sys.path)
        sys.path[:0] = [REPO]
        try:
            fn()
        finally:
            sys.path[:] = p0
            for k, v in saved.items():
                if v is None:
                    sys.modules.pop(k, None)
                else:
                    sys.modules[k] = v
    return main


def with_world(w):
    global WORLD
    WORLD = w
    random.seed(w.io_seed)
    try:
        import numpy as np
        np.random.seed(w.io_seed & 0xFFFFFFFF)
    except ImportError:
        pass
    return w
