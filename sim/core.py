"""Core of the deterministic simulator: forked twins, simulated world (clock,
standard output, file system, interrupts, thread scheduler), comparison of
answers.  One plan (a JSON value) is one exactly repeatable execution."""
import builtins, errno, io, os, pickle, random, signal, struct, sys, threading, time, traceback, types, inspect, resource

REPO = "/repo"
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import logging
import warnings
warnings.simplefilter("ignore")
import numpy as np
import openturns as ot
ot.TBB.Disable()
ot.Log.Show(ot.Log.NONE)
import matplotlib
matplotlib.use("agg")
import matplotlib.pyplot as plt
import matplotlib.figure
import otpod

REAL_TIME = time.time
REAL_OPEN = builtins.open
REAL_IO_OPEN = io.open


class HarnessError(Exception):
    """The harness, not the code under test, is at fault."""


class SimHang(BaseException):
    """The step budget of a run was exceeded."""


class InjectedIO(OSError):
    pass


def assert_repo():
    f = os.path.realpath(otpod.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError("otpod is imported from %s, not from %s" % (f, REPO))


# --------------------------------------------------------------------- forks
def twin(fn, *args, **kw):
    """Evaluate fn in a forked copy of this process; its effects vanish."""
    r, w = os.pipe()
    sys.stdout.flush() if hasattr(sys.stdout, "flush") else None
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                out = (True, fn(*args, **kw))
            except BaseException as e:  # noqa
                out = (False, (type(e).__name__, str(e)[:2000], traceback.format_exc()[-6000:]))
            try:
                buf = pickle.dumps(out, protocol=4)
            except Exception:
                buf = pickle.dumps((False, ("PickleError", "", traceback.format_exc()[-3000:])))
            view = memoryview(buf)
            off = 0
            while off < len(buf):
                off += os.write(w, view[off:off + 65536])
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    buf = b"".join(chunks)
    if not buf:
        raise HarnessError("twin ended without an answer (status %d)" % status)
    ok, val = pickle.loads(buf)
    if not ok:
        raise HarnessError("twin failed: %s: %s\n%s" % val)
    return val


# ---------------------------------------------------------------- generators
def get_rng():
    return (ot.RandomGenerator.GetState(), np.random.get_state())


def set_rng(st):
    ot.RandomGenerator.SetState(st[0])
    np.random.set_state(st[1])


def seed_rng(seed):
    ot.RandomGenerator.SetSeed(int(seed) % (2 ** 31))
    np.random.seed(int(seed) % (2 ** 31))


def rng_key():
    """Hashable picture of the generator states."""
    s = ot.RandomGenerator.GetState()
    n = np.random.get_state()
    return (int(s.getIndex()), tuple(int(v) for v in s.getBuffer()), int(n[2]), n[1].tobytes())


# --------------------------------------------------------------- comparison
RTOL = 1e-9
ATOL = 1e-12


def diff(a, b, path="", rtol=RTOL, atol=ATOL):
    """None when both answers are the same, else where they differ."""
    if isinstance(a, float) or isinstance(b, float):
        if not isinstance(a, (int, float)) or not isinstance(b, (int, float)) or isinstance(a, bool) != isinstance(b, bool):
            return "%s: %r != %r" % (path, a, b)
        if a == b or (a != a and b != b):
            return None
        if a != a or b != b or abs(a - b) > atol + rtol * max(abs(a), abs(b)):
            return "%s: %r != %r" % (path, a, b)
        return None
    if type(a) is not type(b) and not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))):
        return "%s: %.300r != %.300r" % (path, a, b)
    if isinstance(a, dict):
        if set(a) != set(b):
            return "%s: keys %s" % (path, sorted(map(str, set(a) ^ set(b))))
        for k in a:
            d = diff(a[k], b[k], path + "/" + str(k), rtol, atol)
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: length %d != %d" % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, path + "[%d]" % i, rtol, atol)
            if d:
                return d
        return None
    if a != b:
        return "%s: %.300r != %.300r" % (path, a, b)
    return None


def same(a, b):
    return diff(a, b) is None


def canon(v):
    """Plain floats, ints, strings, lists and dicts."""
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, (np.floating, float)):
        return float(v)
    if isinstance(v, (np.integer, int)):
        return int(v)
    if isinstance(v, np.ndarray):
        return v.astype(float).tolist() if v.dtype != object else [canon(x) for x in v]
    if isinstance(v, ot.Point) or isinstance(v, ot.PointWithDescription):
        return [float(x) for x in v]
    if isinstance(v, ot.Sample):
        return np.array(v).tolist()
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, dict):
        return {str(k): canon(x) for k, x in v.items()}
    if isinstance(v, (ot.Description,)):
        return [str(x) for x in v]
    try:
        return np.array(v).astype(float).tolist()
    except Exception:
        return str(v)


# -------------------------------------------------------------- fault points
# Operations of a run that take long, allocate a lot or talk to the outside:
# where an interrupt is delivered or a failure happens in real deployments.
HEAVY = {
    "getSample", "getRealization", "generate", "run", "fit", "solve", "integrate", "build", "buildWithGraph",
    "getConditionalCovariance", "getConditionalMean", "solveLinearSystem", "inv", "discretize",
    "computeGram", "predict", "predict_proba", "confusion_matrix", "computePDF", "computeComplementaryCDF",
    "draw", "drawMarginal1DPDF", "drawPDF", "DrawQQplot", "savefig", "fsolve", "fmin", "randn", "Kolmogorov",
    "AndersonDarlingNormal", "CramerVonMisesNormal", "computeQuantilePerComponent", "subplots",
    "View", "pause", "show", "getReducedLogLikelihoodFunction", "computeMean",
}
LIBS = ("openturns", "sklearn", "scipy", "statsmodels", "numpy", "matplotlib")


def heavy_kind(c):
    if isinstance(c, ot.Function) or type(c).__name__ in ("PythonFunction", "IndicatorFunction", "ComposedFunction"):
        return "eval"
    if isinstance(c, type):
        return None
    n = getattr(c, "__name__", None)
    if c is builtins.print or n == "updateProgress":
        return "output"
    if n in HEAVY:
        m = getattr(c, "__module__", None) or ""
        if not m:
            s = getattr(c, "__self__", None)
            m = type(s).__module__ if s is not None else ""
        if m.startswith(LIBS):
            return n
    return None


class World(object):
    """The simulated environment of one run."""

    def __init__(self, scratch, clock0=1.7e9, step_budget=3000000):
        self.scratch = scratch
        self.clock = clock0
        self.clock_reads = 0
        self.sim_time0 = clock0
        self.steps = 0
        self.budget = step_budget
        self.hung = False
        self.heavy = 0
        self.trace_heavy = None
        self.fault = None      # dict(at=k, exc=name)
        self.fired = None
        self.sched = None
        self.stats = {}
        self.stdout = None
        self.fs = None
        self.armed = False
        self.jumps = False

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    # -- interrupts -------------------------------------------------------
    def arm(self, at, exc):
        self.heavy = 0
        self.fault = dict(at=at, exc=exc)
        self.fired = None
        self.armed = True

    def count_points(self):
        self.heavy = 0
        self.fault = None
        self.fired = None
        self.armed = True

    def disarm(self):
        self.armed = False
        self.fault = None
        return self.heavy

    def on_call(self, code, c):
        self.steps += 1
        if self.steps > self.budget:
            self.hung = True
            raise SimHang("step budget")
        if self.armed:
            k = heavy_kind(c)
            if k is not None:
                self.heavy += 1
                f = self.fault
                if f is not None and self.heavy == f["at"] and self.fired is None:
                    self.fired = (k, code.co_name)
                    self.fired_in = None if self.sched is None else self.sched.ids.get(threading.get_ident())
                    self.count("fault:" + f["exc"])
                    raise make_exc(f["exc"])
        s = self.sched
        if s is not None:
            s.yield_point()

    # -- clock ------------------------------------------------------------
    def now(self):
        self.clock_reads += 1
        self.clock += 1e-6
        return self.clock

    def advance(self, dt):
        self.clock += dt


WORLD = None


def make_exc(name):
    if name == "KeyboardInterrupt":
        return KeyboardInterrupt("simulated interrupt")
    if name == "MemoryError":
        return MemoryError("simulated allocation failure")
    if name == "RuntimeError":
        return RuntimeError("simulated failure of a computation")
    if name == "OSError":
        return OSError(errno.EIO, "simulated I/O error")
    if name == "TypeError":
        return TypeError("InvalidArgumentException : simulated")
    if name == "ValueError":
        return ValueError("simulated")
    raise HarnessError(name)


# -------------------------------------------------------------- monitoring
_TOOL = 2
_INSTRUMENTED = set()


def _walk(c, out):
    if c in out:
        return
    out.add(c)
    for k in c.co_consts:
        if isinstance(k, types.CodeType):
            _walk(k, out)


def otpod_codes():
    out = set()
    root = os.path.dirname(os.path.realpath(otpod.__file__))

    def visit(o, depth=0):
        if isinstance(o, (staticmethod, classmethod)):
            o = o.__func__
        if isinstance(o, property):
            for f in (o.fget, o.fset, o.fdel):
                if f is not None:
                    visit(f, depth)
            return
        if inspect.isfunction(o):
            if os.path.realpath(o.__code__.co_filename).startswith(root):
                _walk(o.__code__, out)
            if o.__closure__ and depth < 4:
                for cell in o.__closure__:
                    try:
                        visit(cell.cell_contents, depth + 1)
                    except ValueError:
                        pass
            w = getattr(o, "__wrapped__", None)
            if w is not None and depth < 4:
                visit(w, depth + 1)
            return
        if inspect.isclass(o) and depth < 3:
            m = sys.modules.get(o.__module__)
            if m is not None and getattr(m, "__file__", None) and os.path.realpath(m.__file__).startswith(root):
                for v in vars(o).values():
                    visit(v, depth + 1)
            return
        mt = getattr(o, "__dict__", None)
        if mt and type(o).__module__.startswith("otpod") and depth < 3:
            for v in list(vars(o).values()):
                if inspect.isfunction(v) or inspect.isclass(v):
                    visit(v, depth + 1)

    for n, m in list(sys.modules.items()):
        if n == "otpod" or n.startswith("otpod."):
            for v in list(vars(m).values()):
                visit(v)
    return out


def _jump(code, a, b):
    w = WORLD
    if w is not None and w.jumps and b < a:
        w.steps += 1
        if w.steps > w.budget:
            w.hung = True
            raise SimHang("step budget")


def _cb(code, off, c, arg0):
    w = WORLD
    if w is not None:
        w.on_call(code, c)


def instrument():
    mon = sys.monitoring
    if mon.get_tool(_TOOL) is None:
        mon.use_tool_id(_TOOL, "otpod-sim")
        mon.register_callback(_TOOL, mon.events.CALL, _cb)
        mon.register_callback(_TOOL, mon.events.JUMP, _jump)
    for c in otpod_codes():
        if c not in _INSTRUMENTED:
            mon.set_local_events(_TOOL, c, mon.events.CALL | mon.events.JUMP)
            _INSTRUMENTED.add(c)
    return len(_INSTRUMENTED)


# ------------------------------------------------------------------- stdout
class SimStdout(io.TextIOBase):
    """Standard output of the simulated process; may fail at the k-th write."""

    def __init__(self, world):
        self.world = world
        self.parts = []
        self.writes = 0
        self.fail_at = None
        self.exc = None
        self.sticky = False

    def _op(self):
        self.writes += 1
        if self.fail_at is not None and (self.writes == self.fail_at or (self.sticky and self.writes > self.fail_at)):
            self.world.count("fault:stdout")
            self.world.fired = ("stdout", "")
            if self.exc == "BrokenPipe":
                raise BrokenPipeError(errno.EPIPE, "simulated")
            raise OSError(errno.ENOSPC, "simulated")

    def writable(self):
        return True

    def write(self, s):
        self._op()
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def text(self):
        return "".join(self.parts)

    def reset(self):
        self.parts = []


# -------------------------------------------------------------- file system
class FaultyRaw(io.FileIO):
    """Raw file which misbehaves as told; sits below the buffered layers."""
    fs = None

    def write(self, b):
        fs = self.fs
        n = len(b) if isinstance(b, (bytes, bytearray)) else memoryview(b).nbytes
        f = fs.fault
        fs.writes += 1
        if f is not None and fs.matches(self.name):
            k = f["kind"]
            if k in ("ENOSPC", "EIO") and fs.bytes + n > f["after"]:
                room = max(0, f["after"] - fs.bytes)
                if room and f.get("partial", True):
                    fs.bytes += room
                    fs.fire()
                    return super().write(memoryview(b)[:room])
                fs.fire()
                raise OSError(errno.ENOSPC if k == "ENOSPC" else errno.EIO, "simulated " + k)
            if k == "CRASH" and fs.bytes + n > f["after"]:
                room = max(0, f["after"] - fs.bytes)
                if room:
                    super().write(memoryview(b)[:room])
                os._exit(9)        # the process dies, what was written stays
            if k == "SHORT" and n > 1:
                fs.fire()
                m = max(1, n // 2)
                fs.bytes += m
                return super().write(memoryview(b)[:m])
        fs.bytes += n
        return super().write(b)

    def close(self):
        f = self.fs.fault
        was = self.closed
        super().close()
        if not was and f is not None and f["kind"] == "CLOSE" and self.fs.matches(self.name) and self.writable_mode:
            self.fs.fire()
            raise OSError(errno.EIO, "simulated error at close")


class SimFS(object):
    """Patches open() so that files below the scratch directory can fail."""

    def __init__(self, world):
        self.world = world
        self.root = os.path.realpath(world.scratch) + os.sep
        self.fault = None
        self.bytes = 0
        self.writes = 0
        self.fired = 0

    def matches(self, name):
        try:
            p = os.path.realpath(os.fspath(name)) if not isinstance(name, int) else ""
        except TypeError:
            return False
        if isinstance(name, int):
            return False
        if not p.startswith(self.root):
            return False
        pat = self.fault.get("path")
        return True if not pat else os.path.basename(p).startswith(pat)

    def fire(self):
        self.fired += 1
        self.world.count("fault:fs:" + self.fault["kind"])

    def set(self, fault):
        self.fault = fault
        self.bytes = 0
        self.writes = 0
        self.fired = 0

    def clear(self):
        self.fault = None

    def open(self, file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        f = self.fault
        if f is None or isinstance(file, int) or opener is not None or not any(c in mode for c in "wax+") or not self.matches(file):
            return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
        if f["kind"] == "OPEN":
            self.fire()
            raise OSError(errno.EACCES, "simulated error at open", str(file))
        raw_mode = mode.replace("b", "").replace("t", "")
        raw = FaultyRaw.__new__(FaultyRaw)
        raw.fs = self
        raw.writable_mode = True
        FaultyRaw.__init__(raw, os.fspath(file), raw_mode)
        raw.fs = self
        if buffering == 0:
            return raw
        if "+" in mode:
            buf = io.BufferedRandom(raw)
        else:
            buf = io.BufferedWriter(raw)
        if "b" in mode:
            return buf
        return io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering=False)


# ----------------------------------------------------------------- threads
class Sched(object):
    """Deterministic scheduler: one thread holds the baton; it may pass it on
    at every call made by otpod code, as the plan says.  Each simulated thread
    has its own generator states."""

    def __init__(self, world, segments, rngs, cycle=False):
        self.world = world
        self.cycle = cycle
        self.segments = list(segments)   # [[steps, thread], ...]
        self.i = 0
        self.left = self.segments[0][0] if self.segments else None
        self.sem = {}
        self.rngs = dict(enumerate(rngs))
        self.cur = 0
        self.done = set()
        self.n = 0
        self.switches = 0
        self.trace = []
        self.ids = {}

    def run(self, fns):
        self.n = len(fns)
        outs = [None] * self.n
        for i in range(self.n):
            self.sem[i] = threading.Semaphore(0)
        fin = threading.Semaphore(0)

        def body(i):
            self.sem[i].acquire()
            self.ids[threading.get_ident()] = i
            set_rng(self.rngs[i])
            try:
                outs[i] = ("ok", fns[i]())
            except BaseException as e:  # noqa
                outs[i] = ("exc", type(e).__name__, str(e)[:500], traceback.format_exc()[-3000:])
            self.rngs[i] = get_rng()
            self.done.add(i)
            nxt = self._next_runnable(i)
            if nxt is None:
                fin.release()
            else:
                self.cur = nxt
                self.sem[nxt].release()
        ths = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(self.n)]
        keep = get_rng()
        for t in ths:
            t.start()
        self.world.sched = self
        self.cur = 0
        self.sem[0].release()
        fin.acquire()
        self.world.sched = None
        for t in ths:
            t.join()
        set_rng(keep)
        return outs

    def _next_runnable(self, i):
        for d in range(1, self.n + 1):
            j = (i + d) % self.n
            if j not in self.done:
                return j
        return None

    def yield_point(self):
        me = self.ids.get(threading.get_ident())
        if me is None or me != self.cur or self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        tgt = self.segments[self.i][1] % self.n
        self.i += 1
        if self.cycle and self.i == len(self.segments):
            self.i = 0
        self.left = self.segments[self.i][0] if self.i < len(self.segments) else None
        if tgt in self.done or tgt == me:
            tgt = self._next_runnable(me)
            if tgt is None or tgt == me:
                return
        self.switches += 1
        self.trace.append((me, tgt, self.world.steps))
        self.rngs[me] = get_rng()
        self.cur = tgt
        self.sem[tgt].release()
        self.sem[me].acquire()
        set_rng(self.rngs[me])


# ------------------------------------------------------------ installation
class Entropy(object):
    """The operating system's entropy, as the plan says."""

    def __init__(self, seed):
        self.r = random.Random("entropy:%s" % (seed,))
        self.reads = 0

    def __call__(self, n):
        self.reads += 1
        return bytes(self.r.getrandbits(8) for _ in range(n))


def set_entropy(seed):
    e = Entropy(seed)
    os.urandom = e
    random._urandom = e
    return e


def install(world, entropy=0):
    """Put the world in charge of this (forked) process."""
    global WORLD
    instrument()
    world.entropy = set_entropy(entropy)
    random.seed(20240229)
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    world.log = LogTap()
    root.addHandler(world.log)
    world.stdout = SimStdout(world)
    sys.stdout = world.stdout
    world.fs = SimFS(world)
    builtins.open = world.fs.open
    io.open = world.fs.open
    time.time = world.now
    time.monotonic = world.now
    time.perf_counter = world.now
    time.time_ns = lambda: int(world.now() * 1e9)
    time.monotonic_ns = lambda: int(world.now() * 1e9)
    time.perf_counter_ns = lambda: int(world.now() * 1e9)

    def sleep(dt):
        world.count("sleeps")
        world.advance(max(0.0, dt))
    time.sleep = sleep

    def pause(interval=0.0):
        world.count("pauses")
        world.advance(interval)
    plt.pause = pause
    plt.show = lambda *a, **k: None
    os.environ["SOURCE_DATE_EPOCH"] = "1700000000"
    WORLD = world
    return world


class LogTap(logging.Handler):
    def __init__(self):
        super().__init__(logging.WARNING)
        self.rows = []

    def emit(self, rec):
        try:
            self.rows.append((rec.levelname, rec.getMessage()))
        except Exception:
            self.rows.append((rec.levelname, str(rec.msg)))
