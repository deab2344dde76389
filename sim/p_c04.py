"""C04: a rejected setting changes nothing; an accepted one acts at the next run."""
from .common import *  # noqa

LEVEL = "exploration"
RUNS = dict(quick=230, thorough=5000)
RULE = ("one run = one random study and a random history of accepted settings, rejected settings and runs; oracles: the same history without the "
        "rejected calls, the answers before an accepted call, and a new study with the final settings run from the same generator states; "
        "non-trivial when at least one setting was rejected or accepted after a run; distinct by study configuration and history")
STATES = "distinct (kind, sequence of setting names, accepted or rejected, and runs)"
SHRINK = [["ops"], ["qs"]]
KINDS = [k for k in KINDS_ALL if k != "ana"]

GETTERS = dict(
    gauss=["SimulationSize", "Verbose"], bin=["SimulationSize", "Verbose"], ks=["SimulationSize", "Verbose"], lap=["SimulationSize", "Verbose"],
    alin=["SimulationSize", "Verbose"], qr=["SimulationSize", "Verbose", "Quantile"],
    chaos=["SimulationSize", "SamplingSize", "DefectSizes", "Distribution", "Degree", "Verbose", "AdaptiveStrategy", "ProjectionStrategy"],
    krig=["SimulationSize", "SamplingSize", "DefectSizes", "Distribution", "InitialStartSize", "Verbose", "CovarianceModel", "Basis"],
    asig=["SimulationSize", "SamplingSize", "DefectSizes", "Distribution", "InitialStartSize", "Verbose", "CovarianceModel", "Basis", "CandidateSize", "GraphActive"],
    hm=["SamplingSize", "DefectSizes", "Distribution", "Verbose", "CandidateSize", "GraphActive", "PMin", "PMax", "ClassifierType", "ClassifierParameters"],
    sobol=["SimulationSize", "DefectSizes", "Distribution", "SensitivityMethod"],
    plim=["SamplingSize", "DefectSizes", "Distribution", "GaussKronrod"], summary=["SimulationSize", "SamplingSize", "Verbose", "MethodActive"])
GETTERS["pliv"] = GETTERS["plim"]
GETTERS["chaos1"] = GETTERS["chaos"]


def bad_value(r, s, name):
    b = s.get("base") or s
    d = s["data"]
    if name == "DefectSizes":
        lo, hi = data_range(b)
        w = hi - lo
        ok = spec_sizes(r, b, 2)
        if r.random() < 0.5:
            # any number of sizes, one of them outside of the data
            v = [lo + w * r.uniform(0.05, 0.95) for _ in range(r.choice([0, 1, 3, 4]))] + [r.choice([lo - 0.2 * w, hi + 0.2 * w, hi + 1e-3 * w])]
            r.shuffle(v)
            return r.choice([v, {"$": "np", "v": v}, {"$": "tuple", "v": v}])
        return r.choice([[lo - w, ok[0]], [ok[0], ok[1], hi + w], [lo - 0.1 * w, hi + 0.1 * w], [hi + 1e-3 * w, ok[0], ok[1]],
                         [ok[0], lo - 1e-3 * w], {"$": "bad", "v": "str"}])
    if name == "Quantile":
        return r.choice([[0.0, 0.5], [0.2, 1.0], [-0.1, 0.3], [0.5, 0.9, 1.2], [1.5], [0.1, 0.2, 0.3, 0.4, 1.0], {"$": "np", "v": [0.8, 0.6, 0.4, 0.0]}])
    if name == "Distribution":
        v = [{"$": "bad", "v": "str"}, {"$": "bad", "v": "none"}, {"$": "bad", "v": "normal"}, {"$": "bad", "v": "int"}]
        if s["kind"] in KINDS_SENS:
            v.append({"$": "dist", "box": d["box"], "t": ["U"] * d["dim"], "rho": None})
        return r.choice(v)
    if name in ("Basis", "CovarianceModel", "AdaptiveStrategy", "ProjectionStrategy", "GaussKronrod", "PolynomialChaosResult", "KrigingResult"):
        return {"$": "bad", "v": r.choice(["str", "normal", "obj", "int"])}
    if name == "Verbose":
        return r.choice(["yes", 1, None, 0])
    if name in ("PMin", "PMax"):
        return r.choice([-0.1, 1.5, 7, -1e-9])
    if name == "ClassifierType":
        return r.choice(["svm", "RF", "", "forest"])
    if name == "GraphActive":
        return r.choice([["yes"], [1], [True, None, None, 3], [None], [False, 0.5, 0.9, ["d"]]])
    if name == "SensitivityMethod":
        return r.choice(["saltelli", "Foo", "", "Sobol"])
    if name == "MethodActive":
        return r.choice([["Foo", True], ["Kriging", "yes"], ["LinearGauss", 1], ["LinearGauss", None], ["kriging", False]])
    return None


def good_value(r, s, name):
    b = s.get("base") or s
    d = s["data"]
    k = s["kind"]
    if name == "SimulationSize":
        return r.choice([3, 4, 6, 9])
    if name == "SamplingSize":
        return r.choice([60, 80]) if k in ("plim", "pliv") else r.choice([7, 12, 18])
    if name == "DefectSizes":
        v = (near_sizes if s.get("base") else spec_sizes)(r, b, r.choice([2, 3, 4]))
        if r.random() < 0.4:
            r.shuffle(v)
        return r.choice([v, v, {"$": "np", "v": v}, {"$": "sample", "v": v}, {"$": "tuple", "v": v}, {"$": "point", "v": v}])
    if name == "Quantile":
        v = r.sample([0.15, 0.3, 0.45, 0.55, 0.65, 0.85], r.choice([2, 3, 4]))
        return r.choice([v, {"$": "np", "v": v}])
    if name == "Distribution":
        if k in KINDS_SENS:
            return {"$": "dist", "box": d["box"][1:], "t": [r.choice("N" if k == "pliv" else "UN") for _ in d["box"][1:]], "rho": None}
        return gen_dist(r, d, types="UTt" if k in KINDS_ADAPT else "UNTt")
    if name == "Basis":
        return {"$": "basis", "dim": d["dim"], "name": r.choice(["const", "lin0", "lin"])}
    if name == "CovarianceModel":
        return gen_cov(r, d["dim"])
    if name == "AdaptiveStrategy":
        return {"$": "strategy", "dist": {"$": "dist", "box": d["box"], "t": ["U"] * d["dim"], "rho": None}, "degree": r.choice([1, 2])}
    if name == "ProjectionStrategy":
        return {"$": "proj", "lars": r.random() < 0.5}
    if name == "GaussKronrod":
        return r.choice([{"$": "gk", "n": 30}, {"$": "gk", "n": 2, "rule": "G3K7"}])
    if name == "Verbose":
        return r.random() < 0.5
    if name == "PMin":
        return r.choice([0.3, 0.45, 0.2])
    if name == "PMax":
        return r.choice([0.6, 0.9, 0.55])
    if name == "ClassifierType":
        return r.choice(["rf", "svc"])
    if name == "ClassifierParameters":
        return None
    if name == "GraphActive":
        return r.choice([[False], [True, 0.5, 0.9], [True]])
    if name == "CandidateSize":
        return s["n"] + r.choice([6, 9])
    if name == "InitialStartSize":
        return r.choice([0, 1, 2])
    if name == "Degree":
        return r.choice([1, 2, 3] if d["dim"] == 1 else [1, 2])
    if name == "SensitivityMethod":
        return r.choice(["Saltelli", "Jansen", "Martinez", "MauntzKucherenko"])
    if name == "MethodActive":
        return [r.choice(METHODS[:3]), r.random() < 0.5]
    if name in ("PolynomialChaosResult", "KrigingResult"):
        return metares(r, s)
    return None


def metares(r, s):
    b = json.loads(json.dumps(s))
    keep = ("DefectSizes", "SimulationSize", "SamplingSize")
    b["conf"] = [c for c in b["conf"] if c[0] in keep]
    if s["kind"] == "krig":
        b["conf"] += [["CovarianceModel", gen_cov(r, s["data"]["dim"])], ["InitialStartSize", 0]]
    else:
        b["conf"] += [["Degree", r.choice([1, 2])]]
    return {"$": "metares", "spec": b}


def gen(r, i, tier):
    k = kind_at(i, KINDS)
    s = gen_spec(r, k, cens=0.15)
    if k == "summary":
        s["active"] = [m for m in s["active"] if m in METHODS[:3]][:2] or ["LinearBinomial"]
    names = GETTERS[k] + {"chaos": ["PolynomialChaosResult"], "chaos1": ["PolynomialChaosResult"], "krig": ["KrigingResult"]}.get(k, [])
    ops = []
    for phase in range(3):
        for _ in range(r.choice([1, 1, 2, 3])):
            name = r.choice(names)
            if r.random() < 0.5:
                v = bad_value(r, s, name)
                if v is not None or name == "Verbose":
                    ops.append(dict(bad=[name, v]))
            else:
                v = good_value(r, s, name)
                if v is not None:
                    ops.append(dict(set=[name, v]))
        if r.random() < 0.5:
            # a burst of rejected calls before the run, observed after the last one only
            for name in r.sample(names, min(len(names), 5)) + (["DefectSizes"] if "DefectSizes" in names else []):
                v = bad_value(r, s, name)
                if v is not None:
                    ops.append(dict(bad=[name, v], burst=True))
            if ops and "burst" in ops[-1]:
                del ops[-1]["burst"]
        if phase < 2:
            ops.append(dict(run=r.randrange(10 ** 6)))
    if not any("run" in o for o in ops[:-1]):
        ops.append(dict(run=r.randrange(10 ** 6)))
    qs = queries(s, r, draws=2, saves=0)
    if k == "summary":
        qs = [q for q in qs if q[0] == "sub" and q[1] in METHODS[:3]]
    qs = [q for q in qs if not (q[0] == "get" and q[1][3:] in names) and q[0] not in ("savetxt", "report")]
    if len(qs) > 8:
        qs = r.sample(qs, 8)
    return dict(spec=s, seed=r.randrange(10 ** 6), ops=ops, qs=qs)


def settings(st):
    out = {}
    for n in GETTERS[st.kind]:
        try:
            if n == "MethodActive":
                v = dict(st.obj.getMethodActive())
            else:
                v = getattr(st.obj, "get" + n)()
            out[n] = plain(v)
        except SimHang:
            raise
        except Exception as e:
            out[n] = "exc " + type(e).__name__
    return out


def plain(v):
    if type(v).__name__ in ("AdaptiveStrategy", "ProjectionStrategy", "LeastSquaresStrategy", "FixedStrategy"):
        return v.getImplementation().__class__.__name__ if hasattr(v, "getImplementation") else type(v).__name__
    if isinstance(v, (ot.Distribution, ot.JointDistribution)):
        return [str(v.getMarginal(i).getImplementation()) if hasattr(v.getMarginal(i), "getImplementation") else str(v.getMarginal(i)) for i in range(v.getDimension())] + [str(v.getCopula())]
    if isinstance(v, ot.Basis):
        return [str(v.build(i)) for i in range(v.getSize())]
    return canon(v)


def expected(name, v):
    """What the getter must return for an accepted value; None: not judged."""
    if name in ("SimulationSize", "SamplingSize", "Verbose", "PMin", "PMax", "ClassifierType", "CandidateSize", "InitialStartSize", "Degree", "SensitivityMethod"):
        return canon(v)
    if name in ("DefectSizes", "Quantile"):
        return sorted(float(x) for x in np.ravel(np.array(v, dtype=float)))
    if name in ("Distribution", "Basis", "CovarianceModel", "GaussKronrod"):
        return plain(v)
    if name == "GraphActive":
        return v[0]
    return None


def trace(plan, scratch, skip, upto=None):
    """Execute the history; observation after each operation."""
    w = enter(scratch)
    seed_rng(plan["seed"])
    st = Study(plan["spec"])
    st.build()
    obs = []

    def look():
        return dict(s=settings(st), a=st.asks(plan["qs"]))
    obs.append(twin(look))
    outs = []
    for j, op in enumerate(plan["ops"]):
        plt.close("all")
        if j in skip:
            outs.append(["skip"])
        elif "run" in op:
            seed_rng(op["run"])
            sizes = [float(x) for x in st.obj.getDefectSizes()] if st.kind == "sobol" else None
            o = outcome(st.run)
            outs.append(o + [sizes] if o[0] == "ok" else o)
            if st.kind in KINDS_ADAPT and o[0] != "ok":
                pass
        else:
            name, v = op.get("set") or op["bad"]
            k0 = rng_key()
            o = outcome(lambda: st.set(name, v))
            if rng_key() != k0:
                o = o + ["moved the generators"]
            outs.append(o)
        obs.append(obs[-1] if op.get("burst") and outs[-1][0] != "ok" else twin(look))
    return obs, outs, w.stats, w.steps


def fresh(plan, scratch, sets, seed, sizes):
    enter(scratch)
    seed_rng(plan["seed"])
    st = Study(plan["spec"])
    st.build()
    for name, v in sets:
        st.set(name, v)
    if sizes is not None:
        st.set("DefectSizes", sizes)
    seed_rng(seed)
    o = outcome(st.run)
    return o, st.asks(plan["qs"])


def judge_results(spec, name, v, q):
    """May an accepted setting change this answer?"""
    if spec["kind"] == "summary":
        if name == "MethodActive":
            return q[0] == "sub" and q[1] != v[0]
    if name in ("PolynomialChaosResult", "KrigingResult"):
        return q[0] in ("pod", "cl", "det") or q[1:2] == ["drawPOD"]
    return True


def execute(plan, scratch, res):
    spec = plan["spec"]
    kind = spec["kind"]

    def t(skip):
        try:
            return ["ok", trace(plan, scratch, skip)]
        except SimHang:
            return ["hang"]
        except HarnessError:
            raise
        except Exception as e:
            return ["exc", type(e).__name__, str(e)[:200]]
    A = twin(t, [])
    if A[0] != "ok":
        res.skipped = "study refused"
        return
    obs, outs, stats, steps = A[1]
    res.steps += steps
    for k2, v in stats.items():
        res.count(k2, v)
    bad = []
    ran = False
    shape = [kind]
    nontrivial = False
    sets = []
    for j, op in enumerate(plan["ops"]):
        o = outs[j]
        if "run" in op:
            shape.append("run" if o[0] == "ok" else "run!")
            if o[0] == "ok":
                ran = True
            # runs like a new study with the final settings
            if kind not in KINDS_ADAPT and len(plan["ops"]) > 1 and (o[0] == "ok" or sets):
                f = twin(fresh, plan, scratch, sets, op["run"], o[1] if o[0] == "ok" else None)
                res.count("fresh_runs")
                if o[0] != f[0][0]:
                    res.violate("governs:" + kind, "run %d gives %s but a new study with the final settings %s gives %s" % (j, o, sets, f[0]))
                    return
                if o[0] == "ok":
                    for q, a, b in zip(plan["qs"], f[1], obs[j + 1]["a"]):
                        d = diff(a, b)
                        if d:
                            res.violate("governs:" + kind, "after %s and run %d, query %s: new study with the final settings vs this one: %s" % (
                                json.dumps(plan["ops"][:j])[:400], j, q, d))
                            return
            if o[0] != "ok":
                res.count("runs_refused")
                break
            continue
        name, v = op.get("set") or op["bad"]
        shape.append(name + ("!" if o[0] != "ok" else ""))
        if len(o) > 1 and o[-1] == "moved the generators":
            res.violate("generators:" + kind, "set%s moves the generators" % name)
        if o[0] != "ok":
            bad.append(j)
            nontrivial = True
            res.count("fault:rejected_setting")
            d = diff(obs[j]["s"], obs[j + 1]["s"]) or diff(obs[j]["a"], obs[j + 1]["a"])
            if d:
                res.violate("rejected:" + kind, "set%s(%s) was rejected (%s) but changed %s" % (name, str(v)[:100], o[1], d))
                return
        else:
            res.count("accepted")
            if "bad" in op:
                res.count("bad_accepted:" + name)
            sets.append([name, v])
            nontrivial = nontrivial or ran
            e = expected(name, make_obj(v)) if name not in ("PolynomialChaosResult", "KrigingResult") else None
            if e is not None and name in obs[j + 1]["s"]:
                d = diff(e, obs[j + 1]["s"][name])
                if d:
                    res.violate("getter:" + kind, "set%s(%s) accepted, but the getter: %s" % (name, str(v)[:200], d))
                    return
            for n, x in obs[j]["s"].items():
                if n == name or (name == "ClassifierType" and n == "ClassifierParameters"):
                    continue
                d = diff(x, obs[j + 1]["s"].get(n))
                if d:
                    res.violate("othersetting:" + kind, "set%s changed %s: %s" % (name, n, d))
                    return
            for q, a, b in zip(plan["qs"], obs[j]["a"], obs[j + 1]["a"]):
                if not judge_results(spec, name, v, q):
                    continue
                d = diff(a, b)
                if d:
                    res.violate("accepted:" + kind, "set%s(%s) after a run changed the answer of %s: %s" % (name, str(v)[:200], q, d))
                    return
    res.states.append(" ".join(shape))
    if nontrivial:
        res.keys.append(specdesc(spec) + " ".join(shape))
    if bad:
        B = twin(t, bad)
        if B[0] != "ok":
            res.violate("rejected:" + kind, "without the rejected calls the history gives %s" % (B,))
            return
        ob, ou = B[1][0], B[1][1]
        for j in range(len(plan["ops"])):
            if j in bad:
                continue
            d = diff(ob[j + 1], obs[j + 1]) or diff(ou[j], outs[j])
            if d:
                res.violate("rejected:" + kind, "after the rejected calls %s, operation %s behaves differently: %s" % (
                    [plan["ops"][b] for b in bad if b < j], str(plan["ops"][j])[:150], d))
                return
