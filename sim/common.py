"""Pieces shared by the property checks."""
from .studies import *  # noqa
from . import core

EXCS = ["KeyboardInterrupt", "MemoryError", "RuntimeError", "OSError"]


def enter(scratch, entropy=0, clock=1.7e9, budget=3000000):
    """Install a fresh world in this (forked) process."""
    w = World(scratch, clock, budget)
    install(w, entropy)
    ot.Log.Show(ot.Log.NONE)
    w.study_count = 0
    return w


def rng_digest():
    k = rng_key()
    a = hashlib.sha256(repr(k[:2]).encode()).hexdigest()[:16]
    b = hashlib.sha256(repr(k[2]).encode() + k[3]).hexdigest()[:16]
    return [a, b]


def outcome(fn):
    """["ok"] or ["exc", type] of an operation which may fail."""
    try:
        fn()
        return ["ok"]
    except SimHang:
        raise
    except HarnessError:
        raise
    except BaseException as e:  # noqa
        return ["exc", type(e).__name__, str(e)[:200]]


def sibling(r, spec, how=None):
    """A study close to the given one: shares what a careless cache would key on."""
    how = how or r.choice(["data", "noise", "settings", "same", "kind"])
    s = json.loads(json.dumps(spec))
    if how == "same":
        return s
    if how == "data":
        for x in (s, s.get("base") or s):
            x["data"] = dict(x["data"], seed=x["data"]["seed"] + 1 + r.randrange(1000))
        if s.get("base"):
            s["base"]["data"] = s["data"]
        _resize(r, s)
        return s
    if how == "noise":
        for x in (s, s.get("base") or s):
            x["data"] = dict(x["data"], scale=x["data"]["scale"] * 1.5, dq=min(0.6, x["data"]["dq"] + 0.05))
            if x["nt"] is not None:
                x["nt"] *= 1.5
            if x["st"] is not None:
                x["st"] *= 1.5
        if s.get("base"):
            s["base"]["data"] = s["data"]
        return s
    if how == "settings":
        for c in s["conf"]:
            if c[0] in ("SimulationSize", "SamplingSize"):
                c[1] = c[1] + r.choice([1, 2, 5])
            elif c[0] == "Degree":
                c[1] = max(1, c[1] - 1)
        _resize(r, s)
        return s
    return gen_spec(r, r.choice(KINDS_ALL))


def _resize(r, s):
    for x in [s] + ([s["base"]] if s.get("base") else []):
        for c in x["conf"]:
            if c[0] == "DefectSizes":
                b = s.get("base") or s
                c[1] = spec_sizes(r, b, len(c[1]))


def do_history(w, op, keep, env=None):
    """One earlier event in the life of the process."""
    k = op["op"]
    if k == "clock":
        w.clock += op["dt"]
        w.count("fault:clock_jump")
    elif k == "rng":
        seed_rng(op["seed"])
    elif k == "draws":
        ot.Normal(2).getSample(op["n"])
        np.random.rand(op["n"])
        random.random()
    elif k == "cwd":
        d = os.path.join(w.scratch, "cwd%d" % op["n"])
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
    elif k == "plot":
        fig, ax = plt.subplots()
        ax.plot([0, 1], [1, 0])
        keep.append(fig)
    elif k == "study":
        st = Study(op["spec"], env)
        if op.get("seed") is not None:
            seed_rng(op["seed"])
        f = op.get("fault")

        def body():
            st.build()
            for name, v in op.get("sets", []):
                outcome(lambda: st.set(name, v))
            if op.get("run", True):
                st.run()
        if f:
            w.arm(f["at"], f["exc"])
        o = outcome(body)
        if f:
            w.disarm()
            if f.get("model") and st.model is not None:
                pass
        w.count("history:" + ("ok" if o[0] == "ok" else "failed"))
        if op.get("ask") and o[0] == "ok":
            for q in op["ask"]:
                st.ask(q)
        if op.get("keep", True):
            keep.append(st)
    else:
        raise HarnessError(k)


def gen_history(r, spec, n=None):
    out = []
    for _ in range(n if n is not None else r.choice([1, 1, 2, 3])):
        t = r.random()
        if t < 0.8:
            s = sibling(r, spec)
            if s["kind"] == "summary" and len(s["active"]) > 2:
                s["active"] = s["active"][:2]
            op = dict(op="study", spec=s, seed=r.randrange(10 ** 6), keep=r.random() < 0.7)
            if r.random() < 0.3:
                op["fault"] = dict(at=r.randrange(1, 40), exc=r.choice(EXCS))
            if r.random() < 0.6:
                q = queries(s, r, draws=2, saves=1)
                op["ask"] = r.sample(q, min(len(q), 4))
            out.append(op)
        elif t < 0.86:
            out.append(dict(op="clock", dt=r.choice([-1e6, 3600.0, 1e8, -0.5])))
        elif t < 0.9:
            out.append(dict(op="draws", n=r.randrange(1, 50)))
        elif t < 0.95:
            out.append(dict(op="cwd", n=r.randrange(3)))
        else:
            out.append(dict(op="plot"))
    return out


def kind_at(i, kinds=KINDS_ALL):
    return kinds[i % len(kinds)]


def specdesc(spec):
    """Short key of a study configuration, for counting distinct cases."""
    b = spec.get("base")
    return "%s%s n%d d%d%s%s%s" % (spec["kind"], ("/" + b["kind"]) if b else "", spec["data"]["n"], spec["data"]["dim"],
                                 " cens" if spec["nt"] is not None or spec["st"] is not None else "",
                                 "" if spec["box"] is False else " box" if spec["box"] is True else " lambda", " " + ",".join(sorted(c[0] for c in spec["conf"])))


def h8(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:10]
