"""C17: thresholds, given parameters and reported settings mean what they say."""
from .common import *  # noqa
from . import studies

LEVEL = "exploration"
RUNS = dict(quick=640, thorough=20000)
RULE = ("one run = one random study told in two ways (observations outside the thresholds dropped beforehand; a linear POD from an analysis or from its data; the "
        "Box-Cox parameter estimated or given as that number; the settings a run reports given to a new study; the observations in another order; other units), "
        "executed from the same generator states and under the same failures of the physical model in both; every result must agree; non-trivial when both ran; "
        "distinct by relation, configuration and failures")
STATES = "distinct (relation, kind, question asked, outcome)"
SHRINK = [["qs"], ["rounds"], ["spec", "conf"]]
REL = [["filter", ["qr", "chaos1", "chaos", "krig", "asig", "hm", "ana", "sobol", "plim", "asig", "hm"]],
       ["analysis", ["alin"]],
       ["lambda", ["gauss", "bin", "alin", "ks", "chaos1", "chaos", "krig", "asig", "ana", "qr"]],
       ["reported", ["chaos1", "chaos", "krig", "asig", "hm", "qr", "plim"]],
       ["order", ["gauss", "bin", "ana", "qr"]],
       ["units", ["gauss", "bin", "ks", "lap"]],
       ["affine", ["gauss", "alin", "qr", "bin", "gauss", "ks", "lap"]],
       ["filter", ["krig", "asig", "hm", "chaos"]],
       ["lambda", ["krig", "asig", "chaos", "gauss"]]]
TOL = {"order": (1e-6, 1e-7), "units": (1e-6, 1e-7)}
MEAN_ONLY = {"filter": ("qr",), "lambda": ("qr", "ks", "lap", "alin"), "order": ("qr",), "affine": ("qr", "ks", "lap", "alin")}


def base_of(s):
    return s.get("base") or s


def gen(r, i, tier):
    rel, kinds = REL[i % len(REL)]
    k = kinds[(i // len(REL)) % len(kinds)]
    for _ in range(200):
        s = gen_spec(r, k, cens=1.0 if rel == "filter" else 0.7 if rel == "analysis" else 0.0 if rel in ("order", "units") else 0.7 if rel == "affine" else None)
        b = base_of(s)
        if rel == "filter":
            if k == "hm":
                if s["data"]["binary"]:
                    continue
                X, Y = make_data(s["data"])
                y = np.sort(Y[:, 0])
                s["nt"], s["st"] = float(0.5 * (y[1] + y[2])), float(0.5 * (y[-2] + y[-3]))
                keep = y[2:-2]
                d = detection(s["data"])
                if not 3 <= (keep > d).sum() <= len(keep) - 3:
                    continue
            if b["nt"] is None and b["st"] is None:
                studies._censor(r, b, 1.0)
            t = r.random()
            if t < 0.15:
                b["nt"] = None
            elif t < 0.3:
                b["st"] = None
            if b["nt"] is None and b["st"] is None:
                continue
            if b["nt"] is not None and b["nt"] <= 0 and s_box(b):
                continue                   # the threshold has no transform
            studies.sides(r, b, 0.4)
            if b is not s:
                s["data"], s["nt"], s["st"] = b["data"], b["nt"], b["st"]
            X, Y = make_data(dict(b["data"], cut=[b["nt"], b["st"]]))
            if len(X) < 8:
                continue
        elif rel == "analysis":
            studies.sides(r, s, 0.4)
        elif rel == "lambda":
            s["box"] = True
            if s["data"]["off"] < 1 and k not in ("asig", "krig", "chaos"):
                s["data"]["off"] = 5.0
            if k in KINDS_LIN:
                s["data"]["off"] = max(s["data"]["off"], 5.0)
            if s["nt"] is not None or s["st"] is not None:
                s["nt"] = s["st"] = None
                studies._censor(r, s, 1.0, k != "asig")
        elif rel in ("order", "units", "affine"):
            s["box"] = False
            if rel == "affine":
                if s["data"]["shape"] == "lin" and r.random() < 0.5:
                    s["data"]["off"] = -4.0
                if s["nt"] is not None or s["st"] is not None:
                    s["nt"] = s["st"] = None
                    studies._censor(r, s, 1.0)
                    if s["nt"] <= 0 or r.random() < 0.2:
                        s["nt"] = None
        elif rel == "reported":
            for c in ("DefectSizes", "Distribution"):
                if r.random() < 0.6:
                    base_of(s)["conf"] = [x for x in base_of(s)["conf"] if x[0] != c]
                    s["conf"] = [x for x in s["conf"] if x[0] != c]
        break
    if rel == "filter":
        # sizes inside of what is left
        for x in (s, b):
            x["conf"] = [[n, spec_sizes(r, b, len(v) if isinstance(v, list) else None)] if n == "DefectSizes" else [n, v] for n, v in x["conf"]]
    rounds = [dict(seed=r.randrange(10 ** 6))]
    if k in KINDS_ADAPT:
        while rel != "reported" and r.random() < 0.5 and len(rounds) < 4:
            rounds.insert(0, dict(seed=r.randrange(10 ** 6), fail=sorted(set(r.randrange(0, s["n"] + 2) for _ in range(r.choice([1, 1, 2]))))))
    elif r.random() < 0.3:
        rounds.append(dict(seed=r.randrange(10 ** 6)))
    qs = queries(s, r, draws=4, saves=0)
    qs = [q for q in qs if wanted(rel, k, q)]
    if len(qs) > 14:
        qs = r.sample(qs, 14)
    plan = dict(rel=rel, spec=s, rounds=rounds, qs=qs, seed=r.randrange(10 ** 6))
    if rel == "order":
        plan["perm"] = r.randrange(10 ** 6)
    if rel == "units":
        plan["u"] = [r.choice([-6, -2, 3, 9]), r.choice([-5, -1, 2, 6])]
    return plan


def wanted(rel, k, q):
    """Questions the relation is about."""
    if q[0] in ("report", "savetxt", "sub"):
        return False
    if q[1:2] == ["drawBoxCoxLikelihood"]:
        return rel not in ("lambda",)
    if k in MEAN_ONLY.get(rel, ()):
        if q[0] == "cl" or (q[0] == "det" and len(q) > 2) or (q[1:2] == ["drawPOD"] and len(q) > 3 and q[3] is not None):
            return False
    if rel == "filter" and k == "ana":
        return q[0] == "desc" and q[1] != "getResiduals"
    if rel == "order":
        if k == "ana":
            return q[0] == "desc" and q[1] not in ("getResiduals", "getDurbinWatsonPValue", "getHarrisonMcCabePValue")
        if q[1:2] == ["getQ2"]:
            return False              # cross validation in the order of the observations
        return q[0] not in ("draw", "meta", "coefs", "coefdist") or q[1:2] == ["drawPOD"]
    if rel == "affine":
        return q[0] in ("pod", "cl", "det")
    if rel == "units":
        return q[0] in ("pod", "cl")      # the detection size is solved to an absolute precision
    return True


def told(plan):
    """The same study told the other way."""
    s = json.loads(json.dumps(plan["spec"]))
    rel = plan["rel"]
    b = base_of(s)
    if rel == "filter":
        b["data"]["cut"] = [b["nt"], b["st"]]
        b["nt"] = b["st"] = None
        if b is not s:
            s["data"] = json.loads(json.dumps(b["data"]))
            s["nt"] = s["st"] = None
    elif rel == "analysis":
        s["kind"] = {"Normal": "gauss", "KS": "ks"}.get(s["fact"], "lap")
    elif rel == "affine":
        s["box"] = 1.0
    elif rel == "order":
        s["data"]["perm"] = plan["perm"]
    elif rel == "units":
        a, m = plan["u"]
        s["data"]["scale"] *= 2.0 ** a
        s["data"]["box"] = [[x * 2.0 ** m for x in s["data"]["box"][0]]]
    return s


def life(spec, plan, scratch, then=None):
    """Outcomes and answers after each round."""
    w = enter(scratch)
    random.seed(plan["seed"])
    seed_rng(plan["seed"])
    st = Study(spec)
    o = outcome(st.build)
    if o[0] != "ok":
        return [["refused", o]], [], w.stats, w.steps
    out = rounds(st, plan)
    extra = None
    if then is not None and out[-1][0][0] == "ok":
        extra = then(st)
    return out, extra, w.stats, w.steps


def rounds(st, plan):
    out = []
    for rd in plan["rounds"]:
        if st.model is not None:
            st.model.fail = set(st.model.asked + x for x in rd.get("fail", []))
        seed_rng(rd["seed"])
        o = outcome(st.run)
        if st.model is not None:
            st.model.fail = set()
        plt.close("all")
        a = twin(st.asks, plan["qs"]) if o[0] == "ok" or st.kind in KINDS_ADAPT else None
        out.append([o[:2], a, list(map(list, st.model.calls)) if st.model is not None else None])
    return out


def reported(st):
    """The settings this study reports, as values for a new one."""
    out = []
    for n in ("DefectSizes", "Distribution", "Basis", "Degree", "Quantile", "SamplingSize", "InitialStartSize", "CandidateSize", "PMin", "PMax", "SensitivityMethod"):
        g = getattr(st.obj, "get" + n, None)
        if g is None or (n == "SamplingSize" and st.kind == "hm"):
            continue
        try:
            v = g()
        except Exception:
            continue
        if v is not None:
            out.append([n, v])
    return out


def execute(plan, scratch, res):
    spec, rel = plan["spec"], plan["rel"]
    kind = spec["kind"]
    rtol, atol = TOL.get(rel, (1e-9, 1e-11))
    if rel == "affine":
        # the censored likelihood is maximised to a precision of its own
        rtol = atol = 0.02 if spec["nt"] is not None or spec["st"] is not None else 1e-5

    def second(st):
        if rel == "lambda":
            lam = (st.ana if kind == "ana" and st.ana is not None else st.obj).getBoxCoxParameter()
            s2 = json.loads(json.dumps(spec))
            s2["box"] = float(lam)
            o = Study(s2)
            more = []
        else:
            more = reported(st)
            o = Study(json.loads(json.dumps(spec)))
        random.seed(plan["seed"])
        seed_rng(plan["seed"])
        b = outcome(o.build)
        if b[0] != "ok":
            return [["refused", b]]
        for n, v in more:
            x = outcome(lambda: getattr(o.obj, "set" + n)(v))
            if x[0] != "ok":
                return [["set " + n, x]]
        return rounds(o, plan)
    if rel in ("lambda", "reported"):
        A, B, stats, steps = twin(life, spec, plan, scratch, second)
    else:
        A, _, stats, steps = twin(life, spec, plan, scratch)
        B, _, s2, t2 = twin(life, told(plan), plan, scratch)
        steps += t2
    res.steps += steps
    for k2, v in stats.items():
        res.count(k2, v)
    if A[-1][0] == "refused" or (A[-1][0][0] != "ok" and B is None):
        res.skipped = "study refused"
        return
    if rel != "lambda" and rel != "reported" and A[-1][0][0] != "ok" and B[-1][0] != "refused" and B[-1][0][0] != "ok":
        res.skipped = "run refused"
        return
    if B[-1][0] == "refused" or str(B[-1][0]).startswith("set "):
        res.violate(rel + ":" + kind, "the study runs one way, told the other way it is refused: %s" % (B[-1],))
        return
    res.count("relation:" + rel)
    for j, (a, b) in enumerate(zip(A, B)):
        if "exc" in (a[0][0], b[0][0]) and kind in MEAN_ONLY.get(rel, ()):
            res.count("bootstrap_refused")
            break                      # the bootstrap samples differ, one of them has no solution
        if a[0][:1] != b[0][:1] or (a[0][0] == "exc" and a[0][1] != b[0][1]):
            res.violate(rel + ":" + kind, "round %d: one way %s, the other way %s" % (j, a[0], b[0]))
            return
        if a[2] is not None:
            d = diff(a[2], b[2], "", rtol, atol)
            if d:
                res.violate(rel + ":" + kind, "round %d: the physical model is asked other points: %s" % (j, d))
                return
        if a[1] is None:
            continue
        for q, x, y in zip(plan["qs"], a[1], b[1]):
            x, y = translate(plan, q, x), translate(plan, q, y, True)
            d = diff(x, y, "", rtol, atol)
            res.states.append("%s %s %s %s" % (rel, kind, q[:3], x[0]))
            if d:
                res.violate(rel + ":" + kind, "round %d, %s: one way and the other: %s" % (j, q, d))
                return
    res.keys.append(rel + specdesc(spec) + h8([spec["conf"], plan["rounds"]]))


def translate(plan, q, a, other=False):
    """What of the answer the relation compares."""
    if a[0] != "ok":
        return a
    if plan["rel"] == "filter" and plan["spec"]["kind"] == "ana":
        v = a[1][0]
        return ["ok", v[0] if isinstance(v, list) else v]
    if plan["rel"] == "units" and q[0] == "det" and other:
        m = 2.0 ** -plan["u"][1]
        return ["ok", [[x * m for x in a[1][0]], a[1][1]]]
    return a
