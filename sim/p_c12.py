"""C12: the summary reports each method faithfully."""
import builtins, re
from .common import *  # noqa
from .p_c10 import data_queries
from .p_c14 import distinct_samples

LEVEL = "exploration"
RUNS = dict(quick=170, thorough=6000)
RULE = ("one run = one random summary (data, censoring, Box-Cox, active methods, sizes) with a history of runs that fail or are interrupted, and of activations; "
        "the last run is compared with stand-alone studies built from the same data, then reports, files and graphs asked at reachable and unreachable "
        "probabilities, some with a failure inside, are parsed and compared with what each method's own study answers; non-trivial when at least one "
        "report was compared row by row; distinct by configuration and history")
STATES = "distinct (method, kind of row: value, refused, failed inside)"
SHRINK = [["ops"], ["asks"]]

GET = {"LinearGauss": "getLinearGaussPOD", "LinearBinomial": "getLinearBinomialPOD", "LinearKernelSmoothing": "getLinearKernelSmoothingPOD",
       "QuantileRegression": "getQuantileRegressionPOD", "PolynomialChaos": "getPolynomialChaosPOD", "Kriging": "getKrigingPOD"}
LABEL = {"LinearGauss": "Gaussian residuals :", "LinearBinomial": "No residuals hypothesis :", "LinearKernelSmoothing": "Kernel smoothing on residuals :",
         "QuantileRegression": "Quantile Regression :", "PolynomialChaos": "Polynomial chaos :", "Kriging": "Kriging :"}
SUBKIND = {"LinearGauss": "gauss", "LinearBinomial": "bin", "LinearKernelSmoothing": "ks", "QuantileRegression": "qr", "PolynomialChaos": "chaos", "Kriging": "krig"}
LIN3 = METHODS[:3]
# files of drawGraphs
PODFILE = {"LinearGauss": "POD_Gauss", "LinearBinomial": "POD_Binomial", "LinearKernelSmoothing": "POD_Kernel_Smoothing",
           "QuantileRegression": "POD_Quantile_Regression", "PolynomialChaos": "POD_Polynomial_chaos", "Kriging": "POD_Kriging"}
MODELFILE = {"QuantileRegression": "Quantile_regression_model", "PolynomialChaos": "Validation_graph_Polynomial_chaos", "Kriging": "Validation_graph_Kriging"}
ANAFILE = {"Linear_model": "drawLinearModel", "Residuals": "drawResiduals", "Residuals_distribution": "drawResidualsDistribution", "Residuals_QQ_plot": "drawResidualsQQplot"}


def gen(r, i, tier):
    s = gen_spec(r, "summary")
    dim = s["data"]["dim"]
    t = r.random()
    act = list(s["active"])
    if t < 0.25:
        act = [METHODS[i % 5]]
    elif t < 0.4:
        act = [m for m in METHODS if m not in ("Kriging", "QuantileRegression")]
    if "Kriging" in act and r.random() < 0.6 and dim > 1:
        act = [m for m in act if m != "Kriging"] or ["Kriging"]
    if dim == 1 and r.random() < 0.4 and "Kriging" not in act:
        act.append("Kriging")          # asked for, impossible with one input
    if i % 9 == 4 and dim > 1:
        act = ["Kriging"] + r.sample(["LinearGauss", "LinearBinomial", "PolynomialChaos"], r.choice([1, 2]))
    r.shuffle(act)
    s["active"] = act
    if r.random() < 0.15 and s["box"] is False:
        s["box"] = r.choice([0.5, 1.0, 0.2])
    ops = []
    cheap = not ("QuantileRegression" in act or ("Kriging" in act and dim > 1) or (s["nt"] is not None and "LinearKernelSmoothing" in act))
    for _ in range(r.choice([0, 1, 2, 3]) if cheap else r.choice([0, 0, 1])):
        t = r.random()
        if t < 0.3:
            ops.append(dict(op="run", seed=r.randrange(10 ** 6), at=r.choice([r.random(), 0.02]), exc=r.choice(EXCS)))
        elif t < 0.45:
            ops.append(dict(op="run", seed=r.randrange(10 ** 6)))
        elif t < 0.7:
            m = r.choice(METHODS[:5] if m_heavy(s) else METHODS[:3] + ["PolynomialChaos"])
            ops.append(dict(op="active", m=m, v=r.random() < 0.5))
        elif t < 0.8:
            ops.append(dict(op="set", name="SimulationSize", v=r.choice([2, 3, 5])))
        elif t < 0.9:
            ops.append(dict(op="set", name="SamplingSize", v=r.choice([8, 15, 25])))
        else:
            ops.append(dict(op="bad", m=r.choice(["lineargauss", "Kriging", "x"]), v=r.choice([1, "True", None])))
    asks = []
    for _ in range(r.choice([3, 4])):
        p = r.choice([0.5, 0.7, 0.9, 0.3, 0.57, 0.99, 0.9999, 0.25])
        c = r.choice([0.95, 0.9, 0.5, 0.8, 0.58])
        a = dict(what=r.choice(["report", "report", "file", "file", "graphs"]), p=p, c=c)
        if a["what"] == "graphs" and r.random() < 0.3:
            a["p"] = None if r.random() < 0.7 else p
            a["c"] = None if r.random() < 0.7 else c
        if r.random() < 0.3:
            a["at"], a["exc"] = r.choice([r.random(), r.random(), 0.0]), r.choice(EXCS)
        elif r.random() < 0.45:
            # one method's own answer fails, whatever the reason
            a["brk"], a["exc"] = r.randrange(6), r.choice(["RuntimeError", "ValueError", "TypeError", "MemoryError", "ZeroDivisionError"])
        if r.random() < 0.2:
            a["default"] = True
        asks.append(a)
    if r.random() < 0.5:
        for _ in range(r.choice([1, 2])):
            asks.insert(r.randrange(1, len(asks) + 1), dict(what="active", m=r.choice(act + METHODS), v=r.random() < 0.4))
    return dict(spec=s, ops=ops, seed=r.randrange(10 ** 6), asks=asks, p=r.choice([0.5, 0.7, 0.9]), c=r.choice([0.9, 0.5, 0.95]))


def m_heavy(s):
    return s["data"]["n"] < 26


def sizes_of(plan):
    sim, sam = get_conf(plan["spec"], "SimulationSize", 1000), get_conf(plan["spec"], "SamplingSize", 5000)
    for o in plan["ops"]:
        if o["op"] == "set":
            if o["name"] == "SimulationSize":
                sim = o["v"]
            else:
                sam = o["v"]
    return sim, sam


def standalone(spec, m, sim, sam):
    """The method's study, as a user would build it."""
    X, Y = make_data(spec["data"])
    nt, st, box, det = spec["nt"], spec["st"], spec["box"], detection(spec["data"])
    if m in LIN3:
        f = {"LinearGauss": ot.NormalFactory(), "LinearBinomial": None, "LinearKernelSmoothing": ot.KernelSmoothing()}[m]
        o = otpod.UnivariateLinearModelPOD(X[:, :1], Y, det, nt, st, f, box)
    elif m == "QuantileRegression":
        o = otpod.QuantileRegressionPOD(X[:, :1], Y, det, nt, st, box)
    elif m == "PolynomialChaos":
        o = otpod.PolynomialChaosPOD(X, Y, det, nt, st, box)
    else:
        o = otpod.KrigingPOD(X, Y, det, nt, st, box)
    o.setVerbose(False)
    if m != "LinearBinomial":
        o.setSimulationSize(sim)
    if m in ("PolynomialChaos", "Kriging"):
        o.setSamplingSize(sam)
    return o


def analysis(spec):
    X, Y = make_data(spec["data"])
    return otpod.UnivariateLinearModelAnalysis(X[:, :1], Y, spec["nt"], spec["st"], ot.NormalFactory(), spec["box"])


def wrap(spec, m, o):
    k = SUBKIND[m]
    if k == "chaos" and spec["data"]["dim"] == 1:
        k = "chaos1"
    s = dict(spec, kind=k)
    if k == "qr" or k in ("gauss", "bin", "ks"):
        d = dict(spec["data"])
        s["data"] = d
    st = Study(s)
    st.obj = o
    return st


def method_queries(spec, m, r):
    k = SUBKIND[m]
    if k == "chaos" and spec["data"]["dim"] == 1:
        k = "chaos1"
    q = data_queries(dict(spec, kind=k), r)
    if k in ("chaos", "chaos1", "krig"):
        q += [["get", "getDefectSizes"], ["get", "getDistribution"], ["get", "getSamplingSize"]]
    if k != "bin":
        q += [["get", "getSimulationSize"]]
    return q


def sim_queries(plan, m):
    return [["pod"], ["cl", plan["c"]], ["det", plan["p"]], ["det", plan["p"], plan["c"]]]


def execute(plan, scratch, res):
    w = enter(scratch)
    spec = plan["spec"]
    dim = spec["data"]["dim"]
    seed_rng(plan["seed"] + 1)
    st = Study(spec)
    o = outcome(st.build)
    if o[0] != "ok":
        res.skipped = "refused"
        return
    S = st.obj
    active = {m: m in spec["active"] for m in METHODS}
    for op in plan["ops"]:
        if op["op"] == "run":
            seed_rng(op["seed"])
            if "at" in op:
                w.arm(1 + int(op["at"] * 60), op["exc"])
            o = outcome(S.run)
            w.disarm()
            w.fired = None
            w.count("history:" + o[0])
        elif op["op"] == "active":
            S.setMethodActive(op["m"], op["v"])
            active[op["m"]] = op["v"]
        elif op["op"] == "set":
            st.set(op["name"], op["v"])
        else:
            outcome(lambda: S.setMethodActive(op["m"], op["v"]))
    plt.close("all")
    sim, sam = sizes_of(plan)
    on = [m for m in METHODS if active[m] and (m != "Kriging" or dim > 1)]
    if [m for m in METHODS if S.getMethodActive()[m]] != [m for m in METHODS if active[m]]:
        res.violate("active", "getMethodActive %s after %s" % (S.getMethodActive(), plan["ops"]))
        return

    # ---- stand-alone studies, in the order of the summary
    def chain(seed, with_answers=True):
        seed_rng(seed)
        s0 = w.steps
        out = dict(o={}, ans={}, steps={})
        a = None

        def ana():
            nonlocal a
            a = analysis(spec)
        out["ana"] = outcome(ana)[:2]
        out["ana_steps"] = w.steps - s0
        for m in on:
            s0 = w.steps
            box = []
            out["o"][m] = outcome(lambda: (box.append(standalone(spec, m, sim, sam)), box[0].run()))[:2]
            out["steps"][m] = w.steps - s0
            if out["o"][m][0] != "ok":
                break
            if with_answers:
                state = get_rng()
                stx = wrap(spec, m, box[0])
                rr = random.Random(7)
                out["ans"][m] = [stx.asks(method_queries(spec, m, rr)), stx.asks(sim_queries(plan, m))]
                set_rng(state)
        out["rng"] = rng_digest()
        if with_answers and a is not None:
            sa = Study(dict(spec, kind="ana"))
            sa.obj = a
            out["report"] = sa.q_get("getResults")
            out["file"] = sa.q_savetxt()
            out["R2"] = [float(v) for v in a.getR2()]
            out["draws"] = {}
            cens = spec["nt"] is not None or spec["st"] is not None
            if any(x["what"] == "graphs" for x in plan["asks"]):
                for f, d in ANAFILE.items():
                    out["draws"][f] = sa.q_draw(d, "uncensored")
                    if cens:
                        out["draws"][f + "_censored"] = sa.q_draw(d, "censored")
                if spec["box"] is True:
                    out["draws"]["BoxCox_likelihood"] = sa.q_draw("drawBoxCoxLikelihood")
        return out
    ref = twin(chain, plan["seed"])
    seed_rng(plan["seed"])
    s0 = w.steps
    o = outcome(S.run)
    cost = w.steps - s0
    plt.close("all")
    chain_ok = ref["ana"][0] == "ok" and all(v[0] == "ok" for v in ref["o"].values())
    if o[0] != "ok":
        if not chain_ok:
            res.skipped = "study refused"
            res.absorb(w)
            return
        # a failure which belongs to the data or to the summary?

        def again(k):
            seed_rng(plan["seed"] + 77 * k)
            return outcome(S.run)[0]
        bad = [k for k in (1, 2, 3) if twin(again, k) != "ok"]
        good = [k for k in (1, 2, 3) if (lambda c: c["ana"][0] == "ok" and all(v[0] == "ok" for v in c["o"].values()))(twin(chain, plan["seed"] + 77 * k, False))]
        if len(bad) == 3 and len(good) == 3:
            res.violate("run", "the summary's run fails (%s) although every active method runs alone" % (o,))
        else:
            res.skipped = "study refused"
        res.absorb(w)
        return
    # ---- who answers
    for m in METHODS:
        g = outcome(getattr(S, GET[m]))
        if m in on and g[0] != "ok":
            res.violate("getter", "%s refuses after a run: %s" % (GET[m], g))
            return
        if m not in on and g[0] == "ok":
            res.violate("getter", "%s answers although the method is %s" % (GET[m], "impossible" if active[m] else "inactive"))
            return
    same = rng_digest() == ref["rng"]
    w.count("same_stream" if same else "other_stream")
    if chain_ok and not same and cost > 1.2 * (ref["ana_steps"] + sum(ref["steps"].values())) + 200:
        res.violate("cost", "%d steps for the active methods %s, which alone take %s" % (cost, on, ref["steps"]))
        return
    for m in on:
        if m not in ref["ans"]:
            continue
        stx = wrap(spec, m, getattr(S, GET[m])())
        rr = random.Random(7)
        qs = method_queries(spec, m, rr)
        for q, a, b in zip(qs, stx.asks(qs), ref["ans"][m][0]):
            d = diff(a, b, rtol=1e-8, atol=1e-10)
            if d:
                res.violate("data:" + m, "%s of the summary's study differs from that of a stand-alone study: %s" % (q, d))
                return
        if m != "LinearBinomial" and stx.obj.getSimulationSize() != sim or m in ("PolynomialChaos", "Kriging") and stx.obj.getSamplingSize() != sam:
            res.violate("settings:" + m, "simulation size %s, asked for %s; sampling size %s" % (stx.obj.getSimulationSize(), sim, sam))
            return
        # the simulated answers: equal in the same stream, else the same law
        qs = sim_queries(plan, m)
        d = next((x for x in (diff(a, b, rtol=1e-6, atol=1e-8) for a, b in zip(stx.asks(qs), ref["ans"][m][1])) if x), None)
        if d:
            w.count("two_sample")
            t = laws(plan, spec, m, sim, sam)
            if t:
                res.violate("law:" + m, "the simulated curves of the summary's study are not those of a stand-alone study: %s" % t)
                return
        w.count("methods_compared")
        res.states.append("%s run" % m)
    # ---- reports
    n = 0
    ran = list(on)
    for a in plan["asks"]:
        if a["what"] == "active":
            S.setMethodActive(a["m"], a["v"])
            active[a["m"]] = a["v"]
            on = [m for m in METHODS if active[m] and (m != "Kriging" or dim > 1)]
            for m in METHODS:
                g = outcome(getattr(S, GET[m]))
                if (g[0] == "ok") and m not in on:
                    res.violate("getter", "%s answers although the method was deactivated" % GET[m])
                    return
                if g[0] != "ok" and m in on and m in ran:
                    res.violate("getter", "%s refuses although the method was run and is active" % GET[m])
                    return
            continue
        if a["what"] == "graphs":
            ok = graphs(w, st, S, spec, a, on, ran, ref, res)
        else:
            ok = report(w, st, S, spec, a, on, ran, ref, res)
        if not ok:
            break
        n += 1
    plt.close("all")
    res.absorb(w)
    if n:
        res.keys.append(specdesc(spec) + h8([spec, plan["ops"]]))


def laws(plan, spec, m, sim, sam):
    """Summary and stand-alone studies in many streams."""
    R = 10

    def curves(o):
        stx = wrap(spec, m, o)
        return [[np.nan if x == "refused" else x for x in c] for c in (stx.q_pod(), stx.q_cl(plan["c"]))]

    def one(k):
        seed_rng(plan["seed"] + 1000 + k)
        s = Study(dict(spec, active=[m], conf=[["SimulationSize", max(sim, 12)], ["SamplingSize", max(sam, 200)]], verbose=False))
        s.build()
        s.run()
        return curves(getattr(s.obj, GET[m])())

    def two(k):
        seed_rng(plan["seed"] + 5000 + k)
        analysis(spec)
        o = standalone(spec, m, max(sim, 12), max(sam, 200))
        o.run()
        return curves(o)

    def many(f):
        out = []
        for k in range(R):
            try:
                out.append(f(k))
            except Exception:
                pass
        return out
    A, B = twin(many, one), twin(many, two)
    if len(A) < 8 or len(B) < 8:
        return None
    return distinct_samples(np.array(A), np.array(B))


NUM = re.compile(r"^-?(\d+(\.\d*)?([eE][-+]?\d+)?|inf|nan)$")


def rows_of(text):
    """label -> list of cells, in order; cells split by tabs or blanks."""
    out = []
    for ln in text.splitlines():
        if "\t" in ln:
            cells = ln.split("\t")
        else:
            cells = re.split(r"\s{2,}|(?<=[:)])\s+", ln.strip())
        cells = [c.strip() for c in cells]
        if cells and cells[0]:
            out.append([cells[0], [c for c in cells[1:] if c]])
    return out


def num(s):
    try:
        return float(s)
    except ValueError:
        return None


def titles_of(p, c):
    """The column titles naming probability and level; halves may be cut or rounded."""
    def names(v):
        return {int(v * 100 + 1e-6), int(round(v * 100))}
    return [["a%d" % i, "a%d/%d" % (i, j)] for i in sorted(names(p)) for j in sorted(names(c))]


def near_round(v, x):
    if x is None or v is None:
        return False
    if x != x or v != v:
        return (x != x) == (v != v)
    return abs(v - x) <= 0.00501 + 1e-9 * abs(x)


def expect(S, m, p, c):
    """What the method's own study says: detection sizes, quality figures."""
    o = getattr(S, GET[m])()
    try:
        d = [float(v) for v in o.computeDetectionSize(p, c)]
    except SimHang:
        raise
    except Exception:
        d = None
    if m in LIN3:
        q = None
    elif m == "QuantileRegression":
        q = [o.getR2(p)]
    elif m == "PolynomialChaos":
        q = [o.getR2(), o.getQ2()]
    else:
        q = [o.getQ2()]
    return d, q


def broken(w, S, a, on, ran, name, call):
    """The call with the named answer of one method failing."""
    ms = [m for m in on if m in ran]
    if "brk" not in a or not ms:
        return outcome(call)
    m = ms[a["brk"] % len(ms)]
    o = getattr(S, GET[m])()

    def fails(*args, **kw):
        w.fired = ("answer", name, m)
        w.count("fault:answer")
        raise getattr(builtins, a["exc"])("simulated failure of " + name)
    setattr(o, name, fails)
    try:
        return outcome(call)
    finally:
        delattr(o, name)


def report(w, st, S, spec, a, on, ran, ref, res):
    p, c = a["p"], a["c"]
    if a.get("default"):
        p, c = 0.9, 0.95
    args = () if a.get("default") else (p, c)

    def expected():
        out = {}
        for m in on:
            if m in ran:
                try:
                    out[m] = expect(S, m, p, c)
                except SimHang:
                    raise
                except Exception:
                    out[m] = "figure refused"
        return out
    want = twin(expected)

    def call():
        if a["what"] == "report":
            k = len(w.stdout.parts)
            t = S.getResults(*args)
            return "".join(w.stdout.parts[k:]) + "\n" + t
        return st.q_savetxt(*args)
    if "at" in a:
        def points():
            w.count_points()
            outcome(call)
            return w.disarm()
        w.arm(1 + int(a["at"] * max(1, twin(points))), a["exc"])
    w.log.rows = []
    w.fired = None
    box = []
    o = broken(w, S, a, on, ran, "computeDetectionSize", lambda: box.append(call()))
    w.disarm()
    fired = w.fired
    w.fired = None
    warned = [t for _, t in w.log.rows]
    where = "%s%s%s%s" % ({"report": "getResults", "file": "saveResults"}[a["what"]], args, " (active %s)" % on, " with %s at %s" % (a.get("exc"), fired) if fired else "")
    if o[0] != "ok":
        if fired or any(m not in ran for m in on) or "figure refused" in want.values():
            w.count("report_refused")
            return True
        res.violate("report", "%s raises %s" % (where, o))
        return False
    rows = rows_of(box[0])
    txt = box[0]
    got = {}
    for lab, cells in rows:
        got.setdefault(lab, []).append(cells)
    # one column title per level
    titles = titles_of(p, c)
    failed = []
    for m in METHODS:
        lab = LABEL[m]
        have = got.get(lab, [])
        if m not in on:
            if have:
                res.violate("rows", "%s has a row '%s %s' for an inactive method" % (where, lab, have))
                return False
            continue
        if len(have) != 1 or len(have[0]) != 2 or num(have[0][0]) is None or num(have[0][1]) is None:
            res.violate("rows", "%s has rows %s for '%s'" % (where, have, lab))
            return False
        v = [num(have[0][0]), num(have[0][1])]
        if m not in ran:
            if v != [-1.0, -1.0]:
                res.violate("rows", "%s: row '%s %s' for a method that was never run" % (where, lab, v))
                return False
            failed.append(m)
            continue
        d = want[m][0] if want[m] != "figure refused" else None
        if d is not None and near_round(v[0], d[0]) and near_round(v[1], d[1]):
            res.states.append("%s value" % m)
            continue
        if d is None and v == [-1.0, -1.0]:
            failed.append(m)
            res.states.append("%s refused" % m)
            continue
        if fired and v == [-1.0, -1.0]:
            failed.append(m)
            res.states.append("%s failed inside" % m)
            fired = None          # one failure spoils one row
            continue
        res.violate("size:" + m, "%s: row '%s %s' where the study itself gives %s" % (where, lab, v, d if d is not None else "no detection size"))
        return False
    if len(warned) < len(failed):
        res.violate("warned", "%s: no detection size for %s but the warnings logged are %s" % (where, failed, warned))
        return False
    if not any(cells in titles for cells in [re.split(r"\s+", ln.strip()) for ln in txt.splitlines()]):
        res.violate("title", "%s: no columns %s" % (where, titles[0]))
        return False
    # quality figures
    val = []
    for lab, cells in rows:
        for m, key in (("lin", "Linear Regression ("), ("QuantileRegression", "Quantile Regression at level"), ("PolynomialChaos", "Polynomial Chaos ("), ("Kriging", "Kriging (")):
            if lab.startswith(key):
                val.append([m, [num(x) for x in cells], lab])
    for m in ("lin", "QuantileRegression", "PolynomialChaos", "Kriging"):
        have = [v for k, v, _ in val if k == m]
        act = any(x in on for x in LIN3) if m == "lin" else m in on
        if not act:
            if have:
                res.violate("quality", "%s has quality figures %s for inactive %s" % (where, have, m))
                return False
            continue
        if m == "lin":
            q = [x for x in ref["R2"] if x is not None]
            if spec["nt"] is None and spec["st"] is None:
                q = q[:1]
        else:
            if m not in want or want[m] == "figure refused":
                continue
            q = want[m][1]
        if len(have) != 1 or len(have[0]) != len(q) or not all(near_round(x, y) for x, y in zip(have[0], q)):
            res.violate("quality", "%s gives the quality figures %s of %s instead of %s" % (where, have, m, q))
            return False
    # the linear analysis
    base = rows_of(ref["report"] if a["what"] == "report" else ref["file"])
    pool = {}
    for lab, cells in rows:
        pool.setdefault(lab, []).append(cells)
    for lab, cells in base:
        if "McCabe" in lab or not cells or all(num(x) is None for x in cells):
            continue
        # saveResults writes the next title on the line of its last row
        have = pool.get(lab, [])
        if not any(h[:len(cells)] == cells or (len(h) >= len(cells) and all(y.startswith(x) or close_num(x, y) for x, y in zip(cells, h))) for h in have):
            res.violate("analysis", "%s: '%s %s' of the linear analysis is given as %s" % (where, lab, cells, have))
            return False
    w.count("reports_compared")
    return True


def close_num(x, y):
    a, b = num(x), num(y)
    return a is not None and b is not None and abs(a - b) <= 0.0101 * max(1.0, abs(a)) * (1 if abs(a) < 1 else 0.01)


def graphs(w, st, S, spec, a, on, ran, ref, res):
    p, c = a["p"], a["c"]
    d = st.path("dir")
    os.mkdir(d)
    cens = spec["nt"] is not None or spec["st"] is not None

    def expected():
        out = {}
        for m in on:
            if m not in ran:
                continue
            stx = wrap(spec, m, getattr(S, GET[m])())
            out[PODFILE[m]] = stx.ask(["draw", "drawPOD", p, c])
            if m == "QuantileRegression" and p is not None:
                out[MODELFILE[m]] = stx.ask(["draw", "drawLinearModel", p])
            elif m in ("PolynomialChaos", "Kriging"):
                out[MODELFILE[m]] = stx.ask(["draw", "drawValidationGraph"])
        return out
    want = twin(expected)

    def call():
        return S.drawGraphs(d, "png") if a.get("default") and p is None and c is None else S.drawGraphs(d, "png", p, c)
    if "at" in a:
        def points():
            w.count_points()
            outcome(call)
            return w.disarm()
        w.arm(1 + int(a["at"] * max(1, twin(points))), a["exc"])
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))
    w.log.rows = []
    w.fired = None
    box = []
    o = broken(w, S, a, on, ran, "drawPOD", lambda: box.append(call()))
    w.disarm()
    fired = w.fired
    w.fired = None
    warned = [t for _, t in w.log.rows]
    files = sorted(os.listdir(d))
    sizes = {f: os.path.getsize(os.path.join(d, f)) for f in files}
    figs = []
    if box:
        figs = [figprint(f) for f in box[0]]
    plt.close("all")
    for f in files:
        os.remove(os.path.join(d, f))
    os.rmdir(d)
    where = "drawGraphs(%s, %s) (active %s%s)" % (p, c, on, ", %s at %s" % (a.get("exc"), fired) if fired else "")
    if o[0] != "ok":
        if fired or any(m not in ran for m in on) or any(v[0] != "ok" for k, v in want.items() if not k.startswith("POD_")):
            w.count("graphs_refused")
            return True
        res.violate("graphs", "%s raises %s" % (where, o))
        return False
    stems = [f[:-4] for f in files if f.endswith(".png")]
    need = dict(ref["draws"])
    missing = 0
    for k, v in want.items():
        if v[0] == "ok":
            need[k] = v[1]
        else:
            missing += 1
    extra = [f for f in stems if f not in need]
    if fired:
        # a file begun by the drawing which failed may remain
        extra = [f for f in extra if f not in want]
    if extra or len(stems) != len(files):
        res.violate("graphs", "%s wrote %s, which belong to no active method" % (where, extra or files))
        return False
    lost = [k for k in need if k not in stems]
    if fired and len(lost) == 1 and lost[0].startswith("POD_"):
        missing += 1
        lost = []
    unseen = []
    for k, f in need.items():
        if k in lost or k not in stems:
            continue
        if sizes[k + ".png"] < 1000 and not (fired and k.startswith("POD_")):
            res.violate("graphs", "%s: file %s has %d bytes" % (where, k, sizes[k + ".png"]))
            return False
        if not any(diff(f, g, rtol=1e-6, atol=1e-9) is None for g in figs):
            unseen.append(k)
    if fired and len(unseen) == 1 and unseen[0].startswith("POD_"):
        unseen = []
        missing += 1
    if lost or unseen:
        res.violate("graphs", "%s: graphs %s were not drawn" % (where, lost or unseen))
        return False
    if len(warned) < missing:
        res.violate("warned", "%s: %d graphs missing, warnings %s" % (where, missing, warned))
        return False
    w.count("graphs_compared")
    for m in on:
        res.states.append("%s graphs" % m)
    return True
