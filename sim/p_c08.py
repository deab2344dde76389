"""C08: process-wide state is left as found."""
import gc, locale, tempfile, decimal
from .common import *  # noqa
from .adapt import gen_adaptive, resolve

LEVEL = "exploration"
RUNS = dict(quick=420, thorough=12000)
RULE = ("one run = a random initial process state (interactive mode, rcParams, environment, directory, handlers, filters, NumPy and OpenTURNS settings ...) and a "
        "random history of building, setting, running, failing, being interrupted, asking, drawing and saving of one or two studies; a snapshot of the whole "
        "state is compared after every operation; non-trivial when at least 3 operations were done; distinct by configuration and history")
STATES = "distinct (kind, operation, outcome, initial state changed)"
SHRINK = [["ops"], ["init"], ["spec", "conf"]]

INIT = ["ion", "rc", "env", "cwd", "sig", "seterr", "printopt", "filters", "logging", "resmap", "random", "umask", "stdout", "decimal", "gc", "path", "otlog"]


def gen(r, i, tier):
    k = kind_at(i)
    s = gen_adaptive(r, KINDS_ADAPT.index(k)) if k in KINDS_ADAPT else gen_spec(r, k)
    if r.random() < 0.75 and s["verbose"]:
        s["verbose"] = False
    if k == "summary":
        s["active"] = s["active"][:3]
    if s.get("base"):
        s["base"]["verbose"] = False
    ops = [dict(op="build")]
    qs = queries(s, r, draws=4 if k != "summary" else 1, saves=2 if k != "summary" or r.random() < 0.3 else 0)
    bad = bad_queries(s, r)
    n = r.choice([1, 1, 2]) if k != "summary" else 1
    for _ in range(n):
        t = r.random()
        if t < 0.45:
            ops.append(dict(op="run", seed=r.randrange(10 ** 6)))
        elif t < 0.75:
            ops.append(dict(op="run", seed=r.randrange(10 ** 6), at=r.choice([r.random(), r.random(), 0.0, 0.999]), exc=r.choice(EXCS)))
        elif t < 0.87:
            ops.append(dict(op="run", seed=r.randrange(10 ** 6), out=r.randrange(1, 15)))
        else:
            ops.append(dict(op="run", seed=r.randrange(10 ** 6), model=r.randrange(0, 3)))
        for _ in range(r.choice([0, 1, 3])):
            ops.append(dict(op="ask", q=r.choice(qs if r.random() < 0.8 else bad)))
    ops.append(dict(op="run", seed=r.randrange(10 ** 6)))
    for _ in range(r.choice([3, 5, 7])):
        q = r.choice(qs if r.random() < 0.75 else bad)
        o = dict(op="ask", q=q)
        t = r.random()
        if t < 0.25:
            o["at"], o["exc"] = r.choice([1, 1, 2, 3, 5]), r.choice(EXCS)
        elif t < 0.4:
            o["fs"] = dict(kind=r.choice(["ENOSPC", "OPEN", "CLOSE", "EIO"]), after=r.choice([0, 100, 5000]))
        ops.append(o)
    if k == "summary" and r.random() < 0.5:
        # all the graphs into a directory of their own, cut short on the way
        q = ["graphs", r.choice(["png", "png", "nosuch"]), r.choice([0.5, 0.9, 0.99999, 1.5]), r.choice([0.9, 0.5, 7.0])]
        o = dict(op="ask", q=q)
        t = r.random()
        if t < 0.35:
            o["fs"] = dict(kind=r.choice(["ENOSPC", "OPEN", "CLOSE", "EIO"]), after=r.choice([0, 100, 5000, 100000]))
        elif t < 0.6:
            o["at"], o["exc"] = r.choice([1, 2, 3, 5, 8]), r.choice(EXCS)
        ops.append(o)
    return dict(spec=s, init=[x for x in INIT if r.random() < 0.3], ops=ops, kseed=r.randrange(1000))


def setup(w, init, kseed):
    """The user's own settings."""
    for x in init:
        if x == "ion":
            plt.ion()
        elif x == "rc":
            matplotlib.rcParams["figure.figsize"] = [5.0, 4.0]
            matplotlib.rcParams["savefig.dpi"] = 60
            matplotlib.rcParams["font.size"] = 9.0
            matplotlib.rcParams["axes.grid"] = True
        elif x == "env":
            os.environ["OTPOD_USER"] = "x%d" % kseed
            os.environ["MPLBACKEND"] = "agg"
        elif x == "cwd":
            d = os.path.join(w.scratch, "here")
            os.makedirs(d, exist_ok=True)
            os.chdir(d)
        elif x == "sig":
            signal.signal(signal.SIGINT, lambda *a: None)
            signal.signal(signal.SIGTERM, signal.SIG_IGN)
            signal.signal(signal.SIGALRM, lambda *a: None)
        elif x == "seterr":
            np.seterr(divide="warn", over="ignore", invalid="warn", under="warn")
        elif x == "printopt":
            np.set_printoptions(precision=3, suppress=True)
        elif x == "filters":
            warnings.filterwarnings("ignore", message="user-%d" % kseed)
            warnings.filterwarnings("default", category=SyntaxWarning)
        elif x == "logging":
            logging.getLogger().setLevel(logging.ERROR)
            logging.getLogger("user").setLevel(logging.DEBUG)
        elif x == "otlog":
            ot.Log.Show([ot.Log.NONE, ot.Log.ERROR, ot.Log.INFO | ot.Log.WARN | ot.Log.ERROR | ot.Log.USER, ot.Log.WARN | ot.Log.ERROR | ot.Log.USER][kseed % 4])
        elif x == "resmap":
            ot.ResourceMap.SetAsUnsignedInteger("Field-LevelNumber", 17)
            ot.ResourceMap.SetAsScalar("Contour-DefaultLevelsNumber", 7.0) if False else None
            ot.ResourceMap.SetAsUnsignedInteger("Graph-DefaultHorizontalMargin", 1) if False else None
        elif x == "random":
            random.seed(kseed)
        elif x == "umask":
            os.umask(0o027)
        elif x == "stdout":
            pass
        elif x == "decimal":
            decimal.getcontext().prec = 11
        elif x == "gc":
            gc.disable()
        elif x == "path":
            sys.path.append("/nonexistent-%d" % kseed)


def fds():
    out = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            out[f] = os.readlink("/proc/self/fd/" + f)
        except OSError:
            pass
    # the listing's own descriptor is gone by now; matplotlib keeps the fonts it has read open
    return sorted(v for v in out.values() if not v.startswith("/proc/") and not v.endswith((".ttf", ".afm", ".otf", ".pfb")))


def files(w):
    out = []
    for b, ds, fs in os.walk(w.scratch):
        for f in fs + ds:
            p = os.path.join(b, f)
            out.append(os.path.relpath(p, w.scratch))
    return sorted(out)


def here():
    try:
        return os.getcwd()
    except OSError as e:
        return "gone (%s)" % type(e).__name__


def snap(w):
    um = os.umask(0)
    os.umask(um)
    sg = {}
    for s in signal.valid_signals():
        try:
            sg[int(s)] = repr(signal.getsignal(s))
        except (ValueError, TypeError):
            pass
    rm = {k: ot.ResourceMap.Get(k) for k in ot.ResourceMap.GetKeys()}
    root = logging.getLogger()
    po = {k: str(v) for k, v in np.get_printoptions().items()}
    return {
        "matplotlib interactive mode": plt.isinteractive(),
        "matplotlib settings": {k: repr(v) for k, v in dict.items(matplotlib.rcParams)},
        "working directory": here(),
        "environment": dict(os.environ),
        "standard streams": [id(sys.stdout), id(sys.stderr), id(sys.stdin), id(sys.__stdout__), id(sys.__stderr__)],
        "signal handlers": sg,
        "NumPy error handling": dict(np.geterr()),
        "NumPy print options": po,
        "warning filters": [repr(f) for f in warnings.filters],
        "showwarning": [id(warnings.showwarning), sys.getrecursionlimit(), id(sys.excepthook), sys.getswitchinterval()],
        "logging": [root.level, [id(h) for h in root.handlers], root.manager.disable, [h.level for h in root.handlers],
                    logging.getLogger("user").level, logging.getLogger("user").disabled, logging.getLogger("otpod").level],
        "OpenTURNS resource map": rm,
        "OpenTURNS log": ot.Log.Flags(),
        "Python's random generator": hashlib.sha256(repr(random.getstate()).encode()).hexdigest(),
        "threads": sorted(t.name for t in threading.enumerate()),
        "open files": fds(),
        "umask": um,
        "locale": locale.setlocale(locale.LC_ALL),
        "decimal context": repr(decimal.getcontext()),
        "garbage collector": [gc.isenabled(), gc.get_threshold()],
        "sys.path": list(sys.path),
        "OpenTURNS generator kind": [ot.TBB.IsEnabled() if hasattr(ot.TBB, "IsEnabled") else None],
        "built-ins": [id(builtins.open), id(builtins.print), id(time.time), id(plt.show), id(plt.pause)],
    }


def changed(a, b):
    for k in a:
        if a[k] != b[k]:
            if isinstance(a[k], dict):
                d = sorted(x for x in set(a[k]) | set(b[k]) if a[k].get(x) != b[k].get(x))
                return k, "%s: %s" % (k, [(x, a[k].get(x), b[k].get(x)) for x in d[:4]])
            return k, "%s: %.300s became %.300s" % (k, a[k], b[k])
    return None


def execute(plan, scratch, res):
    gc.collect()
    gc.freeze()
    w = enter(scratch)
    spec = resolve(plan["spec"], scratch)
    kind = spec["kind"]
    tmp = os.path.join(scratch, "tmp")
    os.makedirs(tmp)
    os.makedirs(os.path.join(scratch, "here"))
    tempfile.tempdir = tmp
    os.environ["TMPDIR"] = tmp
    os.chdir(os.path.join(scratch, "here"))
    err = SimStdout(w)
    sys.stderr = err
    warnings.showwarning = lambda *a, **k: None      # the user's own channel, not a print
    setup(w, plan["init"], plan["kseed"])
    gdir = get_conf(spec, "GraphActive")
    gdir = gdir[3] if gdir and len(gdir) > 3 else None
    asked = []
    if gdir:
        rel = os.path.relpath(gdir, scratch)
        asked = [rel] if rel != "." else []
    st = Study(spec)
    f0 = files(w)
    s0 = snap(w)
    n = 0
    silent = not spec.get("verbose")
    hist = []
    own = False
    for op in plan["ops"]:
        w.stdout.reset()
        err.reset()
        w.fired = None
        if "seed" in op:
            seed_rng(op["seed"])
        if op["op"] == "build":
            o = outcome(st.build)
            if o[0] != "ok":
                res.skipped = "study refused"
                return
        elif op["op"] == "run":
            if "at" in op:
                tot = {"ana": 20, "summary": 60}.get(kind, 60)
                w.arm(1 + int(op["at"] * tot), op["exc"])
            if "out" in op:
                w.stdout.fail_at, w.stdout.exc, w.stdout.writes = op["out"], "BrokenPipe", 0
            if "model" in op and st.model is not None:
                st.model.fail = {st.model.asked + op["model"]}
            o = outcome(st.run)
            if st.model is not None:
                st.model.fail = set()
        else:
            if "at" in op:
                w.arm(op["at"], op["exc"])
            if "fs" in op:
                w.fs.set(op["fs"])
            o = st.ask(op["q"])
            w.fs.clear()
        w.disarm()
        w.stdout.fail_at = None
        n += 1
        what = "%s%s" % (op["op"], " %s" % op["q"] if op["op"] == "ask" else "")
        hist.append("%s %s" % (op["op"], o[0]))
        # a traceback kept alive by the harness would keep files open
        gc.collect()
        s1 = snap(w)
        if "fs" in op or "at" in op:
            own = True
        if own:
            # matplotlib's own writer may keep a file open which it failed to close
            s1["open files"] = [f for f in s1["open files"] if not f.startswith(os.path.join(w.scratch, "f"))]
        c = changed(s0, s1)
        if c:
            res.violate("%s:%s" % (c[0].replace(" ", "_"), kind), "after %s (%s): %s" % (what, o[0] if o[0] == "ok" else o[:2], c[1]))
            return
        if op["op"] in ("build", "run") and silent and (w.stdout.text() or err.text()) and not (w.fired and w.fired[0] == "stdout"):
            res.violate("silent:" + kind, "%s prints with verbosity off: %.300r" % (what, w.stdout.text() or err.text()))
            return
        f1 = files(w)
        if op["op"] == "ask" and ("fs" in op or "at" in op):
            # an interrupted saving call may leave what it was writing
            for f in f1:
                if f not in f0 and op["q"][0] in ("save", "savetxt", "graphs", "savebad"):
                    p = os.path.join(scratch, f)
                    if os.path.isfile(p) and os.path.dirname(f) == "" and f.startswith("f"):
                        os.remove(p)
            f1 = files(w)
        extra = [f for f in f1 if f not in f0]
        if gdir:
            pre = asked[0] + os.sep if asked else ""
            extra = [f for f in extra if not (f == (asked[0] if asked else "") or (pre + os.path.basename(f) == f and "POD_" in f) or (asked and asked[0].startswith(f + os.sep)))]
        if extra:
            res.violate("files:" + kind, "after %s: files appeared: %s" % (what, extra[:5]))
            return
        if [f for f in f0 if f not in f1]:
            res.violate("files:" + kind, "after %s: files vanished" % what)
            return
        res.states.append("%s %s %s %s" % (kind, op["op"], o[0], ",".join(plan["init"][:2])))
    plt.close("all")
    res.absorb(w)
    res.count("operations", n)
    if n >= 3:
        res.keys.append(specdesc(spec) + h8([plan["ops"], plan["init"]]))
