"""C09: the caller's data and objects are never modified, nor watched."""
from .common import *  # noqa
from .adapt import gen_adaptive
from .p_c04 import good_value, metares, GETTERS

LEVEL = "exploration"
RUNS = dict(quick=420, thorough=12000)
RULE = ("one run = one random study whose every argument (data in 9 containers and layouts, sizes, quantiles, deltas, distributions, bases, covariance models, "
        "strategies, metamodel results, classifier parameters, labels) is fingerprinted after every operation of a history with failures and interrupts; then "
        "the caller overwrites his arrays and samples, and answers and a new run are compared with those of a twin whose caller did not; non-trivial when "
        "at least 3 operations were done and one argument was overwritten; distinct by configuration and history")
STATES = "distinct (kind, containers, operation, outcome)"
SHRINK = [["ops"], ["qs"], ["spec", "conf"]]
SIZES = ["np", "npview", "list", "list", "sample", "point", "tuple"]


def gen(r, i, tier):
    k = kind_at(i)
    s = gen_adaptive(r, KINDS_ADAPT.index(k)) if k in KINDS_ADAPT else gen_spec(r, k)
    s["conf"] = [c for c in s["conf"] if c[0] != "GraphActive" or len(c[1]) < 4]
    s["cont"] = [r.choice(CONTS + ["ro", "view", "np"]) for _ in (0, 1)]
    if s.get("base"):
        s["base"]["cont"] = [r.choice(CONTS + ["ro"]) for _ in (0, 1)]
    if k == "summary":
        s["active"] = s["active"][:3]
    for name in GETTERS.get(k, []):
        if name in ("Basis", "CovarianceModel", "Distribution", "AdaptiveStrategy", "ProjectionStrategy", "GaussKronrod", "DefectSizes") and r.random() < 0.35:
            v = good_value(r, s, name)
            if v is not None:
                s["conf"] = [c for c in s["conf"] if c[0] != name] + [[name, v]]
    if k in ("chaos", "chaos1", "krig") and r.random() < 0.25:
        s["conf"].append(["KrigingResult" if k == "krig" else "PolynomialChaosResult", metares(r, s)])
    # every way to hand over numbers
    for x in [s] + ([s["base"]] if s.get("base") else []):
        for c in x["conf"]:
            if c[0] in ("DefectSizes", "Quantile"):
                v = c[1]["v"] if isinstance(c[1], dict) else c[1]
                if r.random() < 0.5:
                    r.shuffle(v)
                how = r.choice(SIZES if c[0] == "DefectSizes" else ["np", "npview", "list", "tuple"])
                c[1] = {"$": how, "v": v}
            elif c[0] == "ClassifierParameters":
                c[1] = {"$": "list", "clf": 1, "v": c[1]}
    qs = queries(s, r, draws=4 if k != "summary" else 1, saves=1 if k != "summary" else 0)
    bad = bad_queries(s, r)
    if s.get("delta"):
        multi = isinstance(s["delta"][0], list)
        s["delta"] = {"$": r.choice(["list", "np"] if multi else ["list", "np", "npview", "tuple"]), "v": s["delta"]}
    ops = []
    for _ in range(r.choice([1, 1, 2]) if k != "summary" else 1):
        t = r.random()
        if t < 0.5:
            ops.append(dict(op="run", seed=r.randrange(10 ** 6), at=r.choice([r.random(), r.random(), 0.0, 0.99]), exc=r.choice(EXCS)))
        elif t < 0.7:
            ops.append(dict(op="run", seed=r.randrange(10 ** 6), model=r.randrange(3)))
        else:
            ops.append(dict(op="run", seed=r.randrange(10 ** 6)))
        ops.append(dict(op="ask", q=r.choice(qs + bad)))
    ops.append(dict(op="run", seed=r.randrange(10 ** 6)))
    for _ in range(r.choice([2, 4])):
        o = dict(op="ask", q=r.choice(qs + qs + bad))
        if r.random() < 0.3:
            o["at"], o["exc"] = r.choice([1, 2, 3]), r.choice(EXCS)
        ops.append(o)
    if len(qs) > 8:
        qs = r.sample(qs, 8)
    return dict(spec=s, seed=r.randrange(10 ** 6), ops=ops, qs=qs, mut=r.randrange(10 ** 6), late=r.random() < 0.5)


def fp(o, depth=0):
    """Everything a caller could see change in an object of his."""
    if isinstance(o, np.ndarray):
        return ["nd", str(o.dtype), list(o.shape), list(o.strides), bool(o.flags.writeable), o.tobytes(), fp(o.base, depth + 1) if isinstance(o.base, np.ndarray) and depth < 3 else None]
    if isinstance(o, (list, tuple)):
        return [type(o).__name__] + [fp(x, depth + 1) for x in o]
    if isinstance(o, (int, float, str, bool)) or o is None:
        return [type(o).__name__, repr(o)]
    out = [type(o).__name__]
    if isinstance(o, (ot.Sample, ot.Point)):
        out.append(np.array(o).tobytes())
    for m in ("getName", "getDescription"):
        if hasattr(o, m):
            out.append(str(getattr(o, m)()))
    if isinstance(o, Model):
        return out
    if isinstance(o, ot.Distribution) or hasattr(o, "getMarginal"):
        try:
            out.append([repr(o.getMarginal(i)) for i in range(o.getDimension())])
        except Exception:
            pass
    if hasattr(o, "getMetaModel"):
        m = o.getMetaModel()
        n = m.getInputDimension()
        out += [float(m([0.1 * (j + 1)] * n)[0]) for j in range(3)]
        if hasattr(o, "getDistribution"):
            out += [str(o.getDistribution().getDescription())]
    out.append(repr(o))
    return out


def overwrite(o, how):
    """The caller reuses his array or sample; True when it could change."""
    if isinstance(o, np.ndarray):
        if not o.flags.writeable:
            o.setflags(write=True)
        b = o.base if isinstance(o.base, np.ndarray) else o
        b[...] = b * 1.31 + 0.7 if how else b[::-1] * 0.5
        return True
    if isinstance(o, list):
        for i, x in enumerate(o):
            if isinstance(x, list):
                overwrite(x, how)
            elif isinstance(x, (int, float)) and not isinstance(x, bool):
                o[i] = x * 1.31 + 0.7
        if how:
            o.append(o[0])
        return True
    if isinstance(o, ot.Sample):
        if how:
            o *= [1.3] * o.getDimension()
            o += [0.2] * o.getDimension()
        else:
            for i in range(o.getSize()):
                o[i, 0] = -1.0 - i
        return True
    if isinstance(o, ot.Point):
        for i in range(len(o)):
            o[i] = o[i] * 1.4 + 0.3
        return True
    return False


def tracked(env):
    """Label -> object."""
    out = {}
    for k, v in env.items():
        if k.startswith("data:"):
            out["input data"], out["output data"] = v
        elif k.startswith("{"):
            j = json.loads(k)
            out["classifier parameters" if j.get("clf") else {"dist": "distribution", "cov": "covariance model", "metares": "metamodel result"}.get(j["$"], j["$"]) + " " + h8(k)] = v
        else:
            out[k[:40]] = v
    return out


def execute(plan, scratch, res):
    w = enter(scratch)
    spec = plan["spec"]
    kind = spec["kind"]
    env = {}
    st = Study(spec, env)
    seed_rng(plan["seed"])
    # everything the caller owns exists before the study
    st._data()
    if spec.get("base"):
        Study(spec["base"], env)._data()
    for x in [spec] + ([spec["base"]] if spec.get("base") else []):
        for name, v in x["conf"]:
            make_obj(v, env)
    if spec.get("delta"):
        make_obj(spec["delta"], env)
    if kind != "ana":
        seed_rng(plan["seed"])
    T = tracked(env)
    F = {k: fp(v) for k, v in T.items()}
    n = 0

    def unchanged(what):
        for k in T:
            if fp(T[k]) != F[k]:
                a, b = str(F[k]), str(fp(T[k]))
                i = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), 0)
                res.violate("modified:" + kind, "after %s the caller's %s changed: ...%s... became ...%s..." % (what, k, a[max(0, i - 60):i + 120], b[max(0, i - 60):i + 120]))
                return False
        return True
    o = outcome(st.build)
    if not unchanged("building (%s)" % o[0]):
        return
    if o[0] != "ok":
        res.skipped = "study refused"
        return
    early = None
    if not plan["late"]:
        # overwritten before the first run
        early = watched(w, st, env, plan, res, kind, first=True)
        if res.viol:
            return
    for op in plan["ops"]:
        w.fired = None
        if "seed" in op:
            seed_rng(op["seed"])
        q0 = json.dumps(op)
        if "at" in op:
            w.arm(1 + int(op["at"] * 50) if op["op"] == "run" else op["at"], op["exc"])
        if op["op"] == "run":
            if "model" in op and st.model is not None:
                st.model.fail = {st.model.asked + op["model"]}
            o = outcome(st.run)
            if st.model is not None:
                st.model.fail = set()
            what = "a run (%s)" % (o,)
        else:
            o = st.ask(op["q"])
            what = "%s (%s)" % (op["q"], o[0])
        w.disarm()
        n += 1
        if json.dumps(op) != q0:
            res.violate("modified:" + kind, "after %s the arguments of the call became %s" % (what, json.dumps(op)[:300]))
            return
        if not unchanged(what):
            return
        res.states.append("%s %s %s %s" % (kind, spec["cont"], op["op"], o[0]))
    plt.close("all")
    m = watched(w, st, env, plan, res, kind, first=False)
    res.absorb(w)
    if n >= 3 and (m or early):
        res.keys.append(specdesc(spec) + h8([plan["ops"], spec["cont"]]))


def watched(w, st, env, plan, res, kind, first):
    """Answers and a new run, with and without the caller changing his data."""
    seed = plan["mut"]

    def life(change):
        k = 0
        if change:
            for lab, o in tracked(env).items():
                if lab in ("input data", "output data") or lab.split(" ")[0] in ("np", "npview", "list", "sample", "point", "tuple"):
                    k += overwrite(o, (seed + k) % 2)
        if kind == "ana" and not first:
            # an analysis has no second run: it is its constructor
            return st.asks(plan["qs"]), None, k
        a = None if first else st.asks(plan["qs"])
        if kind == "ana":
            return None, None, k
        seed_rng(seed)
        o = outcome(st.run)
        g = rng_digest()
        return a, [o, g, st.asks(plan["qs"]), st.grid()], k
    A = twin(life, False)
    B = twin(life, True)
    d = diff(A[0], B[0])
    if d:
        res.violate("watched:" + kind, "answers changed when the caller overwrote his arrays: %s" % d)
    else:
        d = diff(A[1], B[1])
        if d:
            res.violate("watched:" + kind, "%s run after the caller overwrote his arrays: %s" % ("first" if first else "new", d))
    res.count("fault:caller_overwrites", B[2])
    res.count("watched_checks")
    return B[2]
