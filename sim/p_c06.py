"""C06: adaptive enrichment finishes and resumes."""
from .adapt import *  # noqa

LEVEL = "exploration"
RUNS = dict(quick=380, thorough=10000)
RULE = ("one run = one random adaptive study (random selection band, candidate set, metamodel, classifier, graph options), a finite sequence of runs hit by "
        "failing model calls, interrupts or failing output, then a run with a working model, which must complete within a step budget (calls and loop "
        "jumps of otpod code) and make every report available; non-trivial when the last run was started; distinct by configuration and fault history")
STATES = "distinct (kind, outcome of each run) histories"
SHRINK = [["rounds"], ["spec", "conf"]]


def gen(r, i, tier):
    s = gen_adaptive(r, i)
    return dict(spec=s, seed=r.randrange(10 ** 6), rounds=gen_rounds(r, s), qseed=r.randrange(10 ** 6))


def budget_of(spec):
    """Many times what a run takes (see DESIGN.md)."""
    g = lambda n, d: get_conf(spec, n, d)
    sizes = g("DefectSizes", None)
    m = len(sizes) if sizes else (10 if spec["kind"] == "asig" else 20)
    samp = g("SamplingSize", 5000)
    sim = g("SimulationSize", 1000)
    cand = g("CandidateSize", 100) + 5
    if spec["kind"] == "asig":
        one = (spec["n"] + 1) * (cand + 4) * m * (samp + sim + 40)
    else:
        one = (spec["n"] + 2) * 200 + m * 60
    return 20000 + 8 * one


def reports(spec, r):
    qs = queries(spec, r, draws=9, saves=1)
    out = []
    for q in qs:
        if q[0] == "det" or (q[0] == "draw" and q[1] == "drawPOD" and len(q) > 2 and q[2] is not None):
            continue          # a probability which is not reached is refused
        if q[0] == "get" and q[1] == "getConfusionMatrix" and spec["n"] == 0:
            continue
        if q[1:] and q[1] == "drawBoxCoxLikelihood" and spec["box"] is not True:
            continue
        if q[1:] and q[1] == "getBoxCoxParameter" and spec["box"] is False:
            continue
        if q[0] == "get" and q[1] == "getSimulationSize" and spec["kind"] == "hm":
            continue
        out.append(q)
    return out


def execute(plan, scratch, res):
    spec = resolve(plan["spec"], scratch)
    kind = spec["kind"]
    w = enter(scratch, budget=10 ** 9)
    w.jumps = True
    seed_rng(plan["seed"])
    st = Study(spec)
    o = outcome(st.build)
    if o[0] != "ok":
        res.skipped = "study refused"
        return
    hist = []
    bud = budget_of(spec)
    for rd in plan["rounds"]:
        last = not any(k in rd for k in ("fail", "at", "out"))
        asked0 = st.model.asked
        st.model.fail = set(asked0 + k for k in rd.get("fail", []))
        seed_rng(rd["seed"])
        if "at" in rd:
            w.arm(1 + int(rd["at"] * 400), rd["exc"])
        if "out" in rd:
            w.stdout.writes = 0
            w.stdout.fail_at, w.stdout.exc = rd["out"], "BrokenPipe"
        steps0 = w.steps
        w.budget = w.steps + bud
        try:
            o = outcome(st.run)
        except SimHang:
            o = ["hang"]
        used = w.steps - steps0
        fired = w.fired is not None or bool(st.model.fail & set(range(asked0, st.model.asked)))
        w.fired = None
        w.budget = 10 ** 9
        w.disarm()
        w.stdout.fail_at = None
        st.model.fail = set()
        plt.close("all")
        hist.append(o[0])
        if used > 0.2 * bud:
            res.count("above_20_percent_of_budget")
        if o[0] == "hang":
            res.violate("hang:" + kind, "run %s did not finish within %d steps" % (rd, bud))
            return
        if o[0] == "exc" and not fired:
            res.violate("run:" + kind, "history %s: the run with a working model fails: %s" % (hist, o[1:]))
            return
        if o[0] == "ok" and last:
            res.count("completed")
    if hist[-1] != "ok":
        raise HarnessError("last round has a fault")
    r = random.Random(plan["qseed"])
    for q in reports(spec, r):
        a = st.ask(q)
        if a[0] == "exc" or a[1] is None:
            try:
                st.raw(q)
                msg = "None"
            except Exception as e:
                msg = "%s: %s" % (type(e).__name__, str(e)[:300])
            res.violate("report:" + kind, "history %s: report %s is not available: %s" % (hist, q, msg))
            return
    res.count("reports")
    try:
        np.array(st.obj.getInputDOE()), np.array(st.obj.getOutputDOE())
    except Exception as e:
        res.violate("report:" + kind, "the design is not available: %s" % e)
    if kind == "asig" and spec["data"]["dim"] >= 3:
        for sk in ("sobol", "plim"):
            try:
                if sk == "sobol":
                    sa = otpod.SobolIndices(st.obj, 20)
                    sa.run()
                    sa.getSensitivityResult()
                else:
                    if get_conf(spec, "Distribution") is not None:
                        continue
                    sa = otpod.PLIMean(st.obj, [-0.3, 0.3], True)
                    sa.setSamplingSize(50)
                    sa.run()
                    sa.getIndices()
                res.count("sensitivity_" + sk)
            except SimHang:
                raise
            except Exception as e:
                if "at least one array" in str(e) or "Variance values" in str(e):
                    res.count("sensitivity_degenerate")
                    continue
                res.violate("sensitivity:" + kind, "history %s: %s built on the study: %s: %s" % (hist, sk, type(e).__name__, str(e)[:300]))
                return
    res.keys.append(specdesc(spec) + h8(plan["rounds"]))
    res.states.append(kind + str(hist) + str(get_conf(spec, "GraphActive") is not None))
    res.absorb(w)
