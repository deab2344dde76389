"""C03: an interrupted run leaves the old results, the new ones, or none."""
from .common import *  # noqa

LEVEL = "exploration"
RUNS = dict(quick=230, thorough=4000)
RULE = ("one run = one random study, with or without earlier results, whose next run is cut at several points (the k-th long operation, the k-th "
        "write to standard output) by an interrupt, an allocation failure or a failing computation; oracle: the answers before, the answers "
        "of the uninterrupted run from the same generator states, or a refusal; non-trivial when the fault fired inside run(); distinct by "
        "study configuration, operation and fault")
STATES = "distinct (kind, method, operation interrupted, exception) crash points"
SHRINK = [["faults"], ["qs"], ["sets"]]
KINDS = [k for k in KINDS_ALL if k != "ana"]
SETTINGS = ("getSimulationSize", "getDefectSizes", "getDistribution", "getSamplingSize", "getPMin", "getPMax", "getClassifierType",
            "getQuantile", "getSensitivityMethod")


def gen(r, i, tier):
    k = kind_at(i, KINDS)
    s = gen_spec(r, k)
    if k == "summary":
        s["active"] = s["active"][:2]
    if k in KINDS_ADAPT and r.random() < 0.5:
        s["conf"].append(["GraphActive", r.choice([[True], [True, 0.5, 0.9], [True, None, 0.8]])])
        s["n"] = max(s["n"], 2)
        for c in s["conf"]:
            if c[0] == "CandidateSize":
                c[1] = max(c[1], s["n"] + 2)
    qs = queries(s, r, draws=5, saves=0)
    if k == "summary":
        qs = [q for q in qs if q[0] == "sub" and q[1] in s["active"]]
    qs = [q for q in qs if not (q[0] == "get" and q[1] in SETTINGS) and q[0] not in ("savetxt", "report")]
    sets = []
    old = r.random() < 0.65
    if old and r.random() < 0.5 and k not in ("bin", "summary"):
        sets = next_settings(r, s)
    faults = []
    for _ in range(3):
        if r.random() < 0.8 or s.get("verbose") is False:
            faults.append(dict(at=r.choice([0.0, r.random(), r.random(), r.random(), 1.0, 0.97]), exc=r.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "RuntimeError"])))
        else:
            faults.append(dict(out=r.random(), exc=r.choice(["BrokenPipe", "ENOSPC"]), sticky=r.random() < 0.5))
    return dict(spec=s, old=r.randrange(10 ** 6) if old else None, new=r.randrange(10 ** 6), sets=sets, faults=faults, qs=qs)


def next_settings(r, s):
    out = []
    for c in s["conf"]:
        if c[0] in ("SimulationSize", "SamplingSize") and r.random() < 0.7:
            out.append([c[0], c[1] + r.choice([-2, 1, 3, 4])])
        elif c[0] == "DefectSizes" and r.random() < 0.7:
            b = s.get("base") or s
            out.append(["DefectSizes", (near_sizes if s.get("base") else spec_sizes)(r, b, max(2, len(c[1]) + r.choice([-1, 0, 1])))])
        elif c[0] == "Degree" and r.random() < 0.5:
            out.append(["Degree", max(1, c[1] + r.choice([-1, 1]))])
        elif c[0] == "Quantile" and r.random() < 0.7:
            out.append(["Quantile", sorted(r.sample([0.15, 0.3, 0.45, 0.55, 0.65, 0.85], 3))])
    return out


def grouped(q, kind):
    """Name of the group of answers which must come from one run."""
    if q[0] == "sub":
        g = grouped(q[2], "pod")
        return q[1] + ":" + g if g else None
    if q[0] in ("pod", "cl", "det"):
        return "pod"
    if q[0] == "draw" and q[1] == "drawPOD":
        return "pod"
    if kind == "qr" and q[0] in ("get", "draw") and q[1] in ("getR2", "drawLinearModel"):
        return "pod"
    if kind in ("chaos", "chaos1", "krig") and (q[0] in ("meta", "coefs", "coefdist") or q[1:] and q[1] in ("getR2", "getQ2", "drawValidationGraph", "drawPolynomialChaosModel")):
        return "pod"
    if kind in KINDS_SENS:
        return "sens"
    return None


def refused(a):
    if a[0] == "exc":
        return True
    v = a[1]
    if v is None:
        return True
    if isinstance(v, list) and v and all(x == "refused" for x in v):
        return True
    return False


def rows_of(spec, obj):
    if spec["kind"] == "hm":
        return obj.getSamplingSize()
    return obj.getSimulationSize() * obj.getSamplingSize()


def consistent(st, spec):
    """Adaptive studies which draw their progress: POD curve = mean of the
    sample whose quantiles are the confidence curves."""
    o = st.obj
    pod = o.getPODModel()
    n = rows_of(spec, o)
    tot = None
    for i in range(n):
        m = o.getPODCLModel(1.0 - (i + 0.5) / n)
        v = np.array([float(m([x])[0]) for x in get_conf(spec, "DefectSizes")])
        tot = v if tot is None else tot + v
    p = np.array([float(pod([x])[0]) for x in get_conf(spec, "DefectSizes")])
    bad = ~(np.isclose(tot / n, p, rtol=1e-6, atol=1e-8) | np.isnan(p))
    return None if not bad.any() else "POD %s but the confidence curves average to %s" % (p.tolist(), (tot / n).tolist())


def execute(plan, scratch, res):
    w = enter(scratch)
    spec = plan["spec"]
    kind = spec["kind"]
    adaptive = kind in KINDS_ADAPT
    graph = adaptive and get_conf(spec, "GraphActive") is not None
    qs = plan["qs"]
    st = Study(spec)
    seed_rng(plan["new"] + 7)
    o = outcome(st.build)
    if o[0] != "ok":
        res.skipped = "study refused"
        return
    if plan["old"] is not None:
        seed_rng(plan["old"])
        o = outcome(st.run)
        if o[0] != "ok":
            res.skipped = "first run refused"
            return
        for name, v in plan["sets"]:
            outcome(lambda: st.set(name, v))
    plt.close("all")

    def asking():
        return st.asks(qs)
    old = twin(asking)
    seed_rng(plan["new"])
    g0 = get_rng()

    def complete():
        set_rng(g0)
        n0 = w.stdout.writes
        w.count_points()
        o = outcome(st.run)
        n = w.disarm()
        return o, n, w.stdout.writes - n0, rng_digest(), st.asks(qs), (consistent(st, spec) if graph and o[0] == "ok" and not plan["sets"] else None)
    o, npts, nout, gnew, new, cons = twin(complete)
    if o[0] != "ok":
        res.skipped = "run refused"
        return
    if cons:
        res.violate("mixed:" + kind, "after a complete run: " + cons)
    res.count("points_in_run", npts)

    def broken(f):
        set_rng(g0)
        if "at" in f:
            at = min(npts, 1 + int(f["at"] * npts))
            w.arm(at, f["exc"])
        else:
            w.fired = None
            w.stdout.writes = 0
            w.stdout.fail_at, w.stdout.exc, w.stdout.sticky = min(nout, 1 + int(f["out"] * nout)), f["exc"], f["sticky"]
        o = outcome(st.run)
        w.disarm()
        w.stdout.fail_at = None
        fired = w.fired
        plt.close("all")
        a = twin(asking)
        cons = None
        if graph and not plan["sets"]:
            def cc():
                try:
                    return consistent(st, spec)
                except Exception:
                    return None
            cons = twin(cc)
        redo = None
        if not adaptive:
            def again():
                set_rng(g0)
                o2 = outcome(st.run)
                return o2, rng_digest(), st.asks(qs)
            redo = twin(again)
        return o, fired, a, cons, redo, w.stats
    for f in plan["faults"]:
        if "out" in f and not nout:
            continue
        if "at" in f and not npts:
            continue
        before = dict(w.stats)
        res.evals += 1
        o, fired, ans, cons, redo, stats = twin(broken, f)
        for k2, v in stats.items():
            if v != before.get(k2, 0):
                res.count(k2, v - before.get(k2, 0))
        if fired is None:
            res.count("not_fired")
            continue
        where = "%s interrupted in %s/%s by %s" % (kind, fired[1], fired[0], f["exc"])
        tag = "%s|%s|%s|%s" % (kind, fired[1], fired[0], f["exc"])
        res.states.append(tag)
        res.keys.append(specdesc(spec) + tag + (" old" if plan["old"] is not None else ""))
        if o[0] == "ok":
            res.count("swallowed")
            swallowed(res, kind, where, qs, old, new, ans, f)
        if cons:
            res.violate("mixed:" + kind, where + ": " + cons)
        groups = {}
        for q, a, b, c in zip(qs, old, new, ans):
            if o[0] == "ok" and kind in SWALLOW:
                break
            g = grouped(q, kind)
            if adaptive and (g is None or graph):
                continue
            if refused(c):
                continue
            is_old, is_new = same(a, c), same(b, c)
            if not is_old and not is_new:
                res.violate("partial:" + kind, "%s: query %s answers neither the old nor the new value: %s; old: %s; new: %s" % (
                    where, q, str(c)[:200], str(a)[:200], str(b)[:200]))
                break
            if g is not None:
                groups.setdefault(g, []).append((q, is_old, is_new))
        for g, lst in groups.items():
            if not all(x[1] for x in lst) and not all(x[2] for x in lst):
                mix = [x[0] for x in lst if not x[1]], [x[0] for x in lst if not x[2]]
                res.violate("mixed:" + kind, "%s: new answers %s along with old answers %s" % (where, mix[0][:4], mix[1][:4]))
        if redo is not None:
            o2, g2, a2 = redo
            d = None
            if o2[0] != "ok":
                d = "run again: %s" % (o2,)
            else:
                d = diff(new, a2) or (None if g2 == gnew else "generators end elsewhere")
            if d:
                res.violate("redo:" + kind, "%s, then run again from the same generator states: %s" % (where, d))
    res.absorb(w)


# Studies which treat a failing size as one that cannot be estimated.
SWALLOW = ("sobol", "plim", "pliv", "summary")


def swallowed(res, kind, where, qs, old, new, ans, f):
    """The run completed in spite of the fault."""
    if kind in SWALLOW:
        return
    for q, b, c in zip(qs, new, ans):
        if kind in KINDS_ADAPT:
            break
        if not same(b, c):
            res.violate("swallowed:" + kind, "%s, which the run passed over in silence: query %s answers %s instead of %s" % (where, q, str(c)[:200], str(b)[:200]))
            return
