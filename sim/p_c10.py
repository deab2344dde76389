"""C10: what the data alone determine does not depend on the random stream."""
from .common import *  # noqa

LEVEL = "exploration"
RUNS = dict(quick=420, thorough=12000)
RULE = ("one run = one random data set and configuration, run in 3 to 5 twin processes which differ only in generator states, numbers of simulations, operating-"
        "system entropy, clock, what ran before and verbosity; every data-determined answer must be the same; non-trivial when at least two twins "
        "ran to the end; distinct by configuration")
STATES = "distinct (kind, question asked)"
SHRINK = [["qs"], ["worlds"], ["spec", "conf"]]
KINDS = KINDS_LIN + ["gauss", "qr", "ana", "chaos1", "chaos", "krig", "hm", "summary"]


def gen(r, i, tier):
    k = kind_at(i, KINDS)
    s = gen_spec(r, k, cens=0.45 if k in KINDS_LIN else None)
    if k in KINDS_LIN and s["nt"] is not None and r.random() < 0.4:
        # heavy censoring: the likelihood needs another starting point
        X, Y = make_data(s["data"])
        y = np.sort(Y[:, 0])
        n = len(y)
        j = r.choice([n // 4, n // 3])
        s["nt"] = float(0.5 * (y[j] + y[j + 1]))
        s["st"] = float(0.5 * (y[-n // 5] + y[-n // 5 - 1]))
    if k == "hm":
        s["n"] = 0
        s["conf"] = [c for c in s["conf"] if c[0] not in ("ClassifierType", "ClassifierParameters")]
        if r.random() < 0.3:
            s["conf"].append(["ClassifierType", "rf"])
    if k == "summary":
        s["active"] = s["active"][:3]
        if s["data"]["dim"] > 1 and r.random() < 0.5 and "Kriging" not in s["active"]:
            s["active"].append("Kriging")
    qs = data_queries(s, r)
    if len(qs) > 16:
        qs = r.sample(qs, 16)
    worlds = []
    for j in range(r.choice([3, 4]) if k not in ("summary",) else 3):
        sets = []
        for c in s["conf"]:
            if c[0] == "SimulationSize" and r.random() < 0.7:
                sets.append(["SimulationSize", c[1] + r.choice([1, 2, 7])])
            if c[0] == "SamplingSize" and k != "hm" and r.random() < 0.7:
                sets.append(["SamplingSize", c[1] + r.choice([1, 5, 11])])
        worlds.append(dict(seed=r.randrange(10 ** 6), entropy=r.randrange(10 ** 6), clock=r.choice([1.7e9, 1e9, 2.1e9]), sets=sets if j else [],
                           before=r.random() < 0.25, verbose=r.random() < 0.3, pyseed=r.randrange(10 ** 6)))
    return dict(spec=s, qs=qs, worlds=worlds)


def data_queries(s, r):
    k = s["kind"]
    q = []
    if k == "ana":
        q = [["desc", m] for m in ("getIntercept", "getSlope", "getStandardError", "getR2", "getAndersonDarlingPValue", "getCramerVonMisesPValue",
                                  "getKolmogorovPValue", "getZeroMeanPValue", "getBreuschPaganPValue", "getDurbinWatsonPValue", "getResiduals")]
        q += [["get", m] for m in ("getBoxCoxParameter", "getInputSample", "getOutputSample", "getResidualsDistribution")]
        for m in ("drawLinearModel", "drawResiduals", "drawResidualsQQplot", "drawResidualsDistribution"):
            q += [["draw", m], ["draw", m, "censored"]]
        q += [["draw", "drawBoxCoxLikelihood"]]
        return q
    if k in KINDS_LIN:
        q = [["pod"]] + [["det", p] for p in (0.5, 0.9, 0.3, 0.7)] + [["draw", "drawPOD"], ["draw", "drawPOD", 0.7], ["get", "getBoxCoxParameter"]]
        if k == "qr":
            q += [["get", "getR2", x] for x in (0.5, 0.9, 0.2)] + [["draw", "drawLinearModel", x] for x in (0.9, 0.5)]
        else:
            q += [["get", "getR2"]]
        if s["box"] is True:
            q += [["draw", "drawBoxCoxLikelihood"]]
        return q
    if k in ("chaos", "chaos1"):
        q = [["get", "getBoxCoxParameter"], ["get", "getR2"], ["get", "getQ2"], ["meta"], ["coefs"], ["draw", "drawValidationGraph"]]
        if k == "chaos1":
            q += [["draw", "drawPolynomialChaosModel"]]
        return q
    if k == "krig":
        return [["get", "getBoxCoxParameter"], ["get", "getQ2"], ["meta"], ["draw", "drawValidationGraph"]]
    if k == "hm":
        return [["meta"], ["doe"], ["get", "getClassifierType"]]
    for m in s["active"]:
        sub = {"PolynomialChaos": "chaos", "Kriging": "krig", "QuantileRegression": "qr"}.get(m, "gauss")
        q += [["sub", m, x] for x in data_queries(dict(s, kind=sub), r) if x[0] != "draw"]
    return q


def execute(plan, scratch, res):
    spec = plan["spec"]
    kind = spec["kind"]

    def life(wd):
        w = enter(scratch, entropy=wd["entropy"], clock=wd["clock"])
        st = Study(spec)
        if wd["before"]:
            seed_rng(wd["seed"] + 1)
            ot.Normal(3).getSample(7)
            o = Study(dict(spec, verbose=spec["verbose"]))
            outcome(lambda: (o.build(), o.run()))
        random.seed(wd["pyseed"])
        seed_rng(wd["seed"])
        o = outcome(st.build)
        if o[0] == "ok":
            for n, v in wd["sets"]:
                st.set(n, v)
            if spec["verbose"] is not None:
                st.obj.setVerbose(wd["verbose"])
            o = outcome(st.run)
        a = st.asks(plan["qs"]) if o[0] == "ok" else None
        return o[:2], a, w.stats, w.steps
    outs = [twin(life, wd) for wd in plan["worlds"]]
    for o in outs:
        for k2, v in o[2].items():
            res.count(k2, v)
        res.steps += o[3]
    ok = [o for o in outs if o[0][0] == "ok"]
    if not ok:
        res.skipped = "study refused"
        return
    res.count("fault:other_random_stream", len(outs) - 1)
    if len(ok) != len(outs):
        # a run may be refused by what its simulations met, not by the data
        res.count("some_refused")
    ref = ok[0]
    for j, o in enumerate(ok[1:], 1):
        for q, a, b in zip(plan["qs"], ref[1], o[1]):
            d = diff(a, b, rtol=1e-8, atol=1e-10)
            if d:
                res.violate("stream:" + kind, "%s of the same data in two random streams (worlds %s, %s): %s" % (q, plan["worlds"][0], plan["worlds"][j], d))
                return
    for q, a in zip(plan["qs"], ref[1]):
        res.states.append("%s %s %s" % (kind, q[:3], a[0]))
    if len(ok) > 1:
        res.keys.append(specdesc(spec) + h8(spec))
