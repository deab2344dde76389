"""C11: simulated curves track the model they simulate, for every random stream."""
from .common import *  # noqa
from .p_c14 import distinct_samples
import warnings
from scipy.optimize import fmin
from statsmodels.regression.quantile_regression import QuantReg

FORCE = bool(os.environ.get("SIM_FORCE_TWO"))
LEVEL = "exploration"
RUNS = dict(quick=1400, thorough=40000)
RULE = ("one run = one POD study of any method on random data, with settings, runs and interrupted runs before the judged run, in a seeded random stream; "
        "its curve and its curves at several confidence levels are compared with an executable reference of the method (same random stream first, two-sample "
        "comparison over many streams when the stream is used otherwise), then range, monotonicity in the level, detection sizes, refusals and drawings are "
        "checked; non-trivial when the judged run completed; distinct by configuration, history and stream")
STATES = "distinct (kind, options, how compared, which detection sizes answered or refused)"
SHRINK = [["hist"], ["spec", "conf"], ["levels"], ["ps"]]
KINDS = ["gauss", "bin", "ks", "lap", "qr", "chaos", "krig", "gauss", "chaos1", "krig", "alin", "hm", "asig", "chaos"]


def gen(r, i, tier):
    k = kind_at(i, KINDS)
    s = gen_spec(r, k)
    hist = []
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        if r.random() < 0.5:
            hist.append(["broken", r.randrange(1, 300), r.choice(EXCS)])
        else:
            hist.append(["run"])
            for c in s["conf"]:
                if c[0] in ("SimulationSize", "SamplingSize") and r.random() < 0.5:
                    hist.append(["set", c[0], c[1] + r.choice([1, 2, 4])])
                if c[0] == "DefectSizes" and r.random() < 0.5:
                    hist.append(["set", "DefectSizes", spec_sizes(r, s, r.choice([2, 3, 5]))])
    if k in KINDS_ADAPT:
        hist = hist[:1]
    if r.random() < 0.12:
        few(r, k, s)
    if k in ("chaos", "krig") and r.random() < 0.15:
        # a narrow distribution given by the user
        s["conf"] = [c for c in s["conf"] if c[0] != "Distribution"] + [["Distribution", gen_dist(r, s["data"], types="N")]]
    return dict(spec=s, hist=hist, seed=r.randrange(10 ** 6), levels=sorted(r.sample([0.5, 0.6, 0.7, 0.8, 0.85, 0.9, 0.95, 0.99, 0.3, 0.1], 4)),
                ps=sorted(r.sample([0.1, 0.3, 0.5, 0.6, 0.7, 0.8, 0.9, 0.95, 0.05, 0.57], 4)), draw=r.random() < 0.3)


def few(r, k, s):
    """As few observations as the method accepts: the degrees of freedom matter most."""
    if k in ("gauss", "bin", "ks", "lap") and s["box"] is False and s["nt"] is None and s["st"] is None:
        s["data"]["n"] = r.choice([4, 5, 6, 8] if k in ("gauss", "bin") else [8, 9])
    elif k in ("chaos1", "chaos") and s["nt"] is None and s["st"] is None:
        d = s["data"]["dim"]
        s["data"]["n"], g = {1: r.choice([(8, 5), (9, 6), (10, 7), (12, 8), (7, 3)]), 2: r.choice([(9, 2), (13, 3), (10, 2)]),
                             3: r.choice([(13, 2), (8, 1)])}.get(d, (9, 1))
        s["conf"] = [c for c in s["conf"] if c[0] not in ("Degree", "AdaptiveStrategy", "ProjectionStrategy")]
        s["conf"] += [["Degree", g], ["ProjectionStrategy", {"$": "proj", "lars": False}]]


# ------------------------------------------------------------ reference model
class Unknown(Exception):
    """The reference does not cover this case."""


def boxcox(Y, box):
    """Shift, parameter and transform for signals Y (n, 1)."""
    if box is False:
        return lambda v: v, None
    shift = -Y.min() + 100.0 if Y.min() < 0 else 0.0
    lam = box if type(box) is float else ot.BoxCoxFactory().build(ot.Sample(Y), [shift]).getLambda()[0]
    tr = ot.BoxCoxTransform([lam])
    return (lambda v: np.array(tr(ot.Sample(np.reshape(np.asarray(v, float) + shift, (-1, 1)))))[:, 0]), lam


def filtered(X, Y, nt, st):
    y = Y[:, 0]
    keep = np.ones(len(X), bool)
    lo = np.zeros(len(X), bool)
    hi = np.zeros(len(X), bool)
    if nt is not None:
        keep &= y > nt
        lo = y <= nt
    if st is not None:
        keep &= y < st
        hi = y >= st
    return X[keep], Y[keep], X[lo], X[hi]


def censored_fit(start, x, xl, xh, y, nt, st):
    from scipy.stats import norm

    def f(p):
        b0, b1, s = p
        with np.errstate(all="ignore"):
            v = len(x) * np.log(s * math.sqrt(2 * math.pi)) + ((y - (b0 + b1 * x)) ** 2).sum() / (2 * s * s)
            if len(xl):
                v -= np.log(norm.cdf((nt - (b0 + b1 * xl)) / s)).sum()
            if len(xh):
                v -= np.log(1.0 - norm.cdf((st - (b0 + b1 * xh)) / s)).sum()
        return np.inf if np.isnan(v) else v
    if f(start) == np.inf:
        raise Unknown("start")
    return fmin(f, start, disp=0, maxiter=500)


class Lin(object):
    """One linear regression of the data, Box-Cox and censoring included."""

    def __init__(self, spec, X, Y, det):
        x, Yf, xl, xh = filtered(X, Y, spec["nt"], spec["st"])
        tr, self.lam = boxcox(Yf, spec["box"])
        y = tr(Yf[:, 0])
        one = lambda v: None if v is None else float(np.ravel(tr([v]))[0])
        self.det = one(det)
        self.x = x = x[:, 0]
        self.y = y
        if np.ptp(y) < 1e-8 * np.abs(y).max():
            raise Unknown("Box-Cox lost the digits")
        A = np.column_stack([np.ones(len(x)), x])
        c, _, rk, _ = np.linalg.lstsq(A, y, rcond=None)
        if rk < 2 or len(x) < 3:
            raise Unknown("rank")
        e = y - A @ c
        s = math.sqrt((e ** 2).sum() / (len(x) - 2))
        self.A = A
        if spec["nt"] is not None or spec["st"] is not None:
            p = censored_fit([c[0], c[1], s], x, xl[:, 0], xh[:, 0], y, one(spec["nt"]), one(spec["st"]))
            c, s = p[:2], p[2]
            e = y - A @ c
        self.b, self.s, self.e = c, s, e

    def line(self, a):
        return self.b[0] + self.b[1] * np.asarray(a)


def q_fit(x, y, q, tol=1e-2):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return QuantReg(y, np.column_stack([np.ones(len(x)), x])).fit(q, max_iter=300, p_tol=tol).params


def surv(d, t):
    return np.array([d.computeComplementaryCDF(float(v)) for v in np.ravel(t)])


class Ref(object):
    """pod(G) -> values; rows(G) -> simulated curves or None; both for the
    present state of the random generators, in the order the method uses it."""

    def __init__(self, st, spec, sizes):
        self.st, self.spec, self.kind = st, spec, st.kind
        X, Y = make_data(spec["data"])
        self.X, self.Y = X, Y
        self.det0 = detection(spec["data"])
        self.n = len(X)
        self.sim = st.obj.getSimulationSize() if self.kind != "bin" else None
        self.sizes = sizes
        self.big = None
        k = self.kind
        if k in ("gauss", "bin", "ks", "lap", "alin"):
            self.lin = Lin(spec, X, Y, self.det0)
        elif k == "qr":
            x, Yf, _, _ = filtered(X, Y, spec["nt"], spec["st"])
            tr, self.lam = boxcox(Yf, spec["box"])
            self.x, self.y, self.det = x[:, 0], tr(Yf[:, 0]), float(tr([self.det0])[0])
            self.q = np.array(get_conf(spec, "Quantile"), float)

    def _boot(self):
        D = ot.Sample(np.column_stack([self.X[:, :1], self.Y]))
        e = ot.BootstrapExperiment(D)
        for _ in range(self.sim):
            d = np.array(e.generate())
            yield d[:, :1], d[:, 1:]

    def sim_lin(self, G):
        k, L = self.kind, self.lin
        f = self.spec.get("fact")
        t = L.det - L.line(G)
        if f is None:
            pod = np.array([(L.e > v).mean() for v in t])
            return pod, None
        if f == "Normal":
            XtX = np.linalg.inv(L.A.T @ L.A)
            V = np.column_stack([np.ones(len(G)), G])
            pv = L.s ** 2 * (1 + np.einsum("ij,jk,ik->i", V, XtX, V))
            pod = np.array([ot.DistFunc.pNormal(float(u), True) for u in t / np.sqrt(pv)])
            N = len(L.x)
            Z = np.array(ot.Normal([0, 0], ot.CovarianceMatrix((0.5 * (XtX + XtX.T)).tolist())).getSample(self.sim))
            sg = np.array((ot.Chi(N - 2).inverse() * math.sqrt(N - 2) * L.s).getSample(self.sim))
            rows = []
            for i in range(self.sim):
                b = Z[i] * sg[i, 0] + L.b
                rows.append([ot.DistFunc.pNormal(float((L.det - b[0] - b[1] * a) / sg[i, 0]), True) for a in G])
            return pod, np.array(rows)
        pod = surv(FACT[f]().build(ot.Sample(L.e.reshape(-1, 1))), t)
        rows = []
        for X, Y in self._boot():
            m = Lin(self.spec, X, Y, self.det0)
            try:
                law = FACT[f]().build(ot.Sample(m.e.reshape(-1, 1)))
            except TypeError:
                raise Unknown("law of the residuals")
            rows.append(surv(law, m.det - m.line(G)))
        return pod, np.array(rows)

    # quantile regression: sizes per quantile instead of probabilities
    def sizes_qr(self, tol=1e-2):
        out = []
        for q in self.q:
            b = q_fit(self.x, self.y, 1.0 - q, tol)
            out.append((self.det - b[0]) / b[1])
        rows = []
        if tol == 1e-2:
            for X, Y in self._boot():
                x, Yf, _, _ = filtered(X, Y, self.spec["nt"], self.spec["st"])
                tr, lam = boxcox(Yf, self.spec["box"])
                y, d = tr(Yf[:, 0]), float(tr([self.det0])[0])
                row = []
                for q in self.q:
                    b = q_fit(x[:, 0], y, 1.0 - q)
                    row.append((d - b[0]) / b[1])
                rows.append(row)
        return np.array(out), np.array(rows)

    def curve_qr(self, s, G):
        m = self.x.max()
        xs, ys = np.hstack([0.0, s, m]), np.hstack([0.0, self.q, self.q.max()])
        o = np.argsort(xs, kind="mergesort")
        xs, ys = xs[o], ys[o]
        return np.array([np.interp(a, xs, ys) if xs[0] <= a <= xs[-1] else np.nan for a in G])

    # metamodels: values at the defect sizes
    def meta(self):
        st, spec = self.st, self.spec
        X, Yf, _, _ = filtered(self.X, self.Y, spec["nt"], spec["st"])
        tr, lam = boxcox(Yf, spec["box"])
        det = float(tr([self.det0])[0])
        return X, tr(Yf[:, 0]), det

    def sim_chaos(self):
        o = self.st.obj
        X, y, det = self.meta()
        n, m, S = self.big or o.getSamplingSize(), len(self.sizes), self.sim
        res = o.getPolynomialChaosResult()
        B = ot.ComposedFunction(ot.AggregatedFunction(res.getReducedBasis()), res.getTransformation())
        C = np.array(res.getCoefficients())[:, 0]
        F = np.array(B(ot.Sample(X)))
        e = y - np.array(res.getMetaModel()(ot.Sample(X)))[:, 0]
        dof = len(X) - len(C) - 1
        sd = math.sqrt((e ** 2).sum() / dof)
        dist = o.getDistribution()
        N = ot.Normal()

        def one(c):
            x = np.array(dist.getSample(n))[:, 1:]
            z = np.array(N.getSample(n * m))[:, 0] * sd
            out = []
            for j, a in enumerate(self.sizes):
                P = np.column_stack([np.full(n, a), x])
                out.append((np.array(B(ot.Sample(P))) @ c + z[n * j:n * (j + 1)] > det).mean())
            return np.array(out)
        pod = one(C)
        ve = (ot.ChiSquare(dof).inverse() * dof * sd ** 2).getRealization()[0]
        if not np.linalg.cond(F) < 1e7:
            raise Unknown("a basis which is not independent on the design")
        V = np.linalg.inv(F.T @ F) * ve
        V = 0.5 * (V + V.T)
        cs = np.array(ot.Normal(C, ot.CovarianceMatrix(V.tolist())).getSample(S))
        return pod, np.array([one(c) for c in cs])

    def sim_krig(self, state=None):
        o = self.st.obj
        X, y, det = self.meta()
        if self.kind == "asig":
            X = np.array(o.getInputDOE())
        mu, sd = X.mean(axis=0), X.std(axis=0, ddof=1)
        res = o.getKrigingResult()
        cc = ot.GaussianProcessConditionalCovariance(res)
        n, S = self.big or o.getSamplingSize(), self.sim
        dist = o.getDistribution()
        cols = []
        for a in self.sizes:
            d = ot.JointDistribution([ot.Dirac(float(a))] + [dist.getMarginal(i) for i in range(1, dist.getDimension())])
            P = (np.array(d.getSample(n)) - mu) / sd
            v = np.array([cc.getConditionalCovariance(p)[0, 0] for p in P])
            m = np.array(cc.getConditionalMean(ot.Sample(P))).ravel()
            z = np.array(ot.Normal().getSample(S))
            with np.errstate(invalid="ignore"):
                p = ((z * np.sqrt(v) + m) > det).mean(axis=1)
            laws = []
            for q in p:
                s2 = q * (1 - q) / n
                laws.append(ot.Normal(float(q), math.sqrt(s2)) if s2 > 0 else ot.Dirac([1.0 if q >= 1 else 0.0]))
            cols.append(np.array(ot.Mixture(laws).getSample(S * n))[:, 0])
        rows = np.array(cols).T
        return rows.mean(axis=0), rows

    def sim_hm(self):
        o = self.st.obj
        dist, n = o.getDistribution(), o.getSamplingSize()
        x = np.array(dist.getSample(n))[:, 1:]
        f = o.getClassifier()
        rows = np.array([f(np.column_stack([np.full(n, a), x]))[:, 1] for a in self.sizes]).T
        return rows.mean(axis=0), rows


def level_rows(rows, c):
    return np.array(ot.Sample(rows).computeQuantilePerComponent(1.0 - c))


def near(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol) | (np.isnan(a) & np.isnan(b))))


def nums(c):
    return np.array([np.nan if v == "refused" else v for v in c], float)


def quiet(fn):
    """The POD study alone, for another stream."""
    try:
        return fn()
    except SimHang:
        raise
    except Exception:
        return None


def execute(plan, scratch, res):
    spec = plan["spec"]
    kind = spec["kind"]
    w = enter(scratch, budget=20000000)
    seed_rng(plan["seed"])
    st = Study(spec)
    o = outcome(st.build)
    if o[0] != "ok":
        res.skipped = "study refused"
        return
    seen = []
    if st.model is not None:
        st.model.hook = lambda m, i, x: seen.append(get_rng())
    for h in plan["hist"]:
        if h[0] == "set":
            outcome(lambda: st.set(h[1], h[2]))
        elif h[0] == "broken":
            w.arm(h[1], h[2])
            outcome(st.run)
            w.disarm()
        else:
            outcome(st.run)
        w.count("history:" + h[0])
    seed_rng(plan["seed"] + 7)
    del seen[:]
    state = get_rng()
    o = outcome(st.run)
    if o[0] != "ok":
        res.skipped = "run refused"
        res.absorb(w)
        return
    if seen:
        state = seen[-1]
    after = get_rng()
    meta = kind in ("chaos", "chaos1", "krig", "asig", "hm")
    sizes = [float(v) for v in np.ravel(st.obj.getDefectSizes())] if meta else None
    cur = json.loads(json.dumps(spec))
    for h in plan["hist"]:
        if h[0] == "set":
            cur = with_conf(cur, h[1], h[2])
    lo, hi = interval(st, cur, sizes)
    G = np.array(sizes if meta else np.linspace(lo, hi, 9))
    how = compare(plan, st, cur, sizes, G, state, res, w)
    if how is None:
        return
    set_rng(after)
    shapes(plan, st, cur, sizes, lo, hi, res, w, how)
    res.keys.append(specdesc(spec) + h8([plan["hist"], plan["seed"]]))
    res.absorb(w)


def interval(st, spec, sizes):
    """The studied interval."""
    X, Y = make_data(spec["data"])
    if sizes is not None:
        return min(sizes), max(sizes)
    if st.kind == "qr":
        X = filtered(X, Y, spec["nt"], spec["st"])[0]
    return float(X[:, 0].min()), float(X[:, 0].max())


def vals(m, G):
    out = []
    for x in G:
        try:
            out.append(float(m([float(x)])[0]))
        except SimHang:
            raise
        except Exception:
            out.append(np.nan)
    return np.array(out)


def compare(plan, st, spec, sizes, G, state, res, w):
    """Curves against the reference; how they were compared, None if bad."""
    kind = st.kind
    pod = vals(st.obj.getPODModel(), G)
    cls = {c: vals(st.obj.getPODCLModel(c), G) for c in plan["levels"]}
    try:
        ref = Ref(st, spec, sizes)
    except Unknown:
        return "unknown"
    cens = spec["nt"] is not None or spec["st"] is not None
    set_rng(state)
    try:
        if kind in ("gauss", "bin", "ks", "lap", "alin"):
            P, R = ref.sim_lin(G)
            tol = 0.02 if cens else 1e-5
            # a residual may sit on the threshold, up to rounding
            if kind == "bin":
                t = ref.lin.det - ref.lin.line(G)
                on = np.abs(ref.lin.e[:, None] - t[None, :]).min(axis=0) < 1e-3 * ref.lin.s
                pod, P = np.where(on, 0, pod), np.where(on, 0, P)
            if not near(pod, P, tol):
                res.violate("pod:" + kind, "POD at %s: %s instead of %s" % (G.tolist(), pod.tolist(), P.tolist()))
                return None
            if kind == "bin":
                N = len(ref.lin.e)
                for c in plan["levels"]:
                    k = np.rint(P * N)
                    want = np.array([(1.0 - c) ** (1.0 / N) if v == N else 1 - ot.DistFunc.qBeta(float(N - v), float(v + 1), c) for v in k])
                    # numbers of detections are compared through the quantile they give (see bin-count-short in known-findings.txt)
                    less = np.array([1 - ot.DistFunc.qBeta(float(N - v + 1), float(v), c) if v >= 1 else 0.0 for v in k])
                    for j in range(len(G)):
                        if "bin-all-detected" in [v[0] for v in res.viol] and k[j] == N and abs(cls[c][j] - c ** (1.0 / N)) < 1e-6:
                            continue
                        if not on[j] and k[j] == N and abs(cls[c][j] - c ** (1.0 / N)) < 1e-6 and abs(c - 0.5) > 1e-9:
                            res.violate("bin-all-detected", "where all residuals are detected the POD at level c of the binomial method is c^(1/N) instead of (1-c)^(1/N)")
                        elif not on[j] and abs(cls[c][j] - want[j]) > 1e-6 and abs(cls[c][j] - less[j]) < 1e-6 and N * pod[j] < k[j]:
                            if "bin-count-short" not in [v[0] for v in res.viol]:
                                res.violate("bin-count-short", "the POD at a level of the binomial method counts one detected residual too few where N times the POD is rounded below the whole number")
                        elif not on[j] and abs(cls[c][j] - want[j]) > 1e-6:
                            res.violate("cl:bin", "POD at level %s at %s: %s instead of %s" % (c, G[j], cls[c][j], want[j]))
                            return None
                return "exact"
            ok = all(near(cls[c], level_rows(R, c), 0.02 if cens else 1e-5) for c in plan["levels"])
        elif kind == "qr":
            s, R = ref.sizes_qr()
            P = ref.curve_qr(s, G)
            d = 1e-4 * (G[-1] - G[0])
            if not near_curve(pod, lambda g: ref.curve_qr(s, g), G, d, 1e-4):
                s2, _ = ref.sizes_qr(1e-6)
                if not near_curve(pod, lambda g: ref.curve_qr(s2, g), G, d, 1e-4 + 3 * np.nanmax(np.abs(ref.curve_qr(s2, G) - P))):
                    res.violate("pod:qr", "POD at %s: %s instead of %s" % (G.tolist(), pod.tolist(), P.tolist()))
                    return None
            ok = True
            for c in plan["levels"]:
                sc = np.array(ot.Sample(R).computeQuantilePerComponent(c))
                ok = ok and near_curve(cls[c], lambda g: ref.curve_qr(sc, g), G, d, 1e-4)
        else:
            f = {"chaos": ref.sim_chaos, "chaos1": ref.sim_chaos, "krig": ref.sim_krig, "asig": ref.sim_krig, "hm": ref.sim_hm}[kind]
            P, R = f()
            n = st.obj.getSamplingSize()
            # one draw of the sample may fall on the other side of the threshold by rounding
            tol = 1e-6
            ok = near(pod, P, tol) and all(near(cls[c], level_rows(R, c), 1e-6) for c in plan["levels"])
    except Unknown:
        return "unknown"
    if ok and not FORCE:
        w.count("exact")
        return "exact"
    w.count("two_sample")
    d = two_sample(plan, st, spec, ref, sizes, G)
    if d:
        res.violate("stream:" + kind, d)
        return None
    return "two-sample"


def near_curve(v, f, G, d, tol):
    """v within the reference curve moved by d at most."""
    A = np.array([f(G), f(np.maximum(G - d, G[0])), f(np.minimum(G + d, G[-1]))])
    lo, hi = np.nanmin(A, axis=0), np.nanmax(A, axis=0)
    return bool(np.all((v >= lo - tol) & (v <= hi + tol) | np.isnan(A).any(axis=0) | np.isnan(v)))


def two_sample(plan, st, spec, ref, sizes, G):
    """Curves in many streams, from the code and from the reference."""
    R = 12
    kind = st.kind
    base = json.loads(json.dumps(spec))
    if kind in KINDS_ADAPT:
        return two_adaptive(plan, st, spec, ref, G)

    # larger simulations tell the laws apart with fewer streams
    ref.sim = {"gauss": 200, "ks": 20, "lap": 20, "alin": 20, "qr": 12, "chaos": 12, "chaos1": 12, "krig": 60}.get(kind)
    if kind == "bin":
        ref.sim = None
    if kind == "alin" and spec["fact"] == "Normal":
        ref.sim = 200
    if ref.sim is not None:
        base = with_conf(base, "SimulationSize", ref.sim)
    if sizes is not None:
        ref.big = 300
        base = with_conf(base, "SamplingSize", ref.big)

    def code(k):
        seed_rng(plan["seed"] + 1000 + k)
        s = Study(base)
        s.build()
        s.run()
        return [vals(s.obj.getPODModel(), G)] + [vals(s.obj.getPODCLModel(c), G) for c in plan["levels"]]

    def model(k):
        seed_rng(plan["seed"] + 5000 + k)
        if kind == "qr":
            s, R_ = ref.sizes_qr()
            return [ref.curve_qr(s, G)] + [ref.curve_qr(np.array(ot.Sample(R_).computeQuantilePerComponent(c)), G) for c in plan["levels"]]
        if kind in ("chaos", "chaos1"):
            P, R_ = ref.sim_chaos()
        elif kind == "krig":
            P, R_ = ref.sim_krig()
        else:
            P, R_ = ref.sim_lin(G)
        return [P] + [level_rows(R_, c) for c in plan["levels"]]
    A = [x for x in (quiet(lambda: code(k)) for k in range(R)) if x is not None]
    B = [x for x in (quiet(lambda: model(k)) for k in range(R)) if x is not None]
    if len(A) < 8 or len(B) < 8:
        return None
    d = distinct_samples(np.array(A), np.array(B))
    return d and "POD (first index 0) or POD at levels %s, at %s: %s" % (plan["levels"], G.tolist(), d)


def two_adaptive(plan, st, spec, ref, G):
    """The design depends on the stream: the reported curves of this run
    against many streams of the reference for this run's metamodel."""
    f = ref.sim_krig if st.kind == "asig" else ref.sim_hm
    B = []
    for k in range(60):
        seed_rng(plan["seed"] + 5000 + k)
        P, R_ = f()
        B.append([P] + [level_rows(R_, c) for c in plan["levels"]])
    B = np.array(B)
    A = np.array([vals(st.obj.getPODModel(), G)] + [vals(st.obj.getPODCLModel(c), G) for c in plan["levels"]])
    m, s = B.mean(axis=0), B.std(axis=0)
    lo, hi = B.min(axis=0), B.max(axis=0)
    w = np.maximum(hi - lo, 0.01)
    bad = (A < lo - 2 * w) | (A > hi + 2 * w)
    # a level of few simulations jumps between values; the mean does not
    bad[1:] = False
    if bad.any():
        return "POD at %s: %s instead of %s +- %s" % (G.tolist(), A[0].tolist(), m[0].tolist(), s[0].tolist())
    return None


# ------------------------------------------------------- what curves look like
def shapes(plan, st, spec, sizes, lo, hi, res, w, how):
    kind, obj = st.kind, st.obj
    meta = sizes is not None
    G = np.linspace(lo, hi, 23)
    pm = obj.getPODModel()
    pod = vals(pm, G)
    eps = 1e-9
    if kind in ("krig", "asig"):
        n = obj.getSamplingSize()
        eps = 7 * 0.5 / math.sqrt(n) / math.sqrt(n * obj.getSimulationSize())
    if np.isnan(pod).any() and not (kind == "qr" and lo < 0):
        res.violate("defined:" + kind, "the POD is not defined at %s" % G[np.isnan(pod)].tolist())
        return
    if (pod < -eps).any() or (pod > 1 + eps).any():
        res.violate("range:" + kind, "POD %s at %s" % (pod.tolist(), G.tolist()))
        return
    if meta:
        at = vals(pm, sizes)
        if not near(pod, np.interp(G, sizes, at), 1e-9):
            res.violate("between:" + kind, "the POD between sizes %s is not between its values there" % sizes)
            return
    ms = {c: obj.getPODCLModel(c) for c in plan["levels"]}
    cv = {c: vals(ms[c], G) for c in plan["levels"]}
    ls = plan["levels"]
    order = True
    if kind == "qr":
        X, Y = make_data(spec["data"])
        q = np.array(get_conf(spec, "Quantile"), float)
        # where each quantile is reached; the method only makes sense when these are positive and in order
        order = all(in_order(ms[c], q, lo, hi) for c in ls) and how == "exact" and qr_regular(st, spec, ls)
    if order:
        for a, b in zip(ls, ls[1:]):
            if kind == "bin":
                # see bin-all-detected: there the curve was compared above
                for c in (a, b):
                    cv[c] = np.where(pod > 1 - 1e-9, np.nan, cv[c])
            if (cv[b] > cv[a] + 1e-9).any():
                j = int(np.nanargmax(cv[b] - cv[a]))
                res.violate("levels:" + kind, "at %s the POD is %s at level %s but %s at level %s" % (G[j], cv[a][j], a, cv[b][j], b))
                return
        w.count("levels_ordered")
    # detection sizes
    for i, p in enumerate(plan["ps"]):
        c = ls[i % len(ls)]
        for lev in (None, c):
            args = (p,) if lev is None else (p, lev)
            try:
                d = obj.computeDetectionSize(*args)
            except SimHang:
                raise
            except Exception:
                d = None
            m = pm if lev is None else ms[c]
            res.states.append("%s %s %s" % (kind, "plain" if lev is None else "level", "refused" if d is None else "given"))
            tasks = [(0, pm)] if lev is None else [(0, pm), (1, ms[c])]
            if kind == "qr":
                tasks = tasks[1:]
                if d is not None and not qr_size(st, spec, p, float(d[0]), lo, hi):
                    res.violate("detection:qr", "a%s = %s is not where the regression line of that quantile meets the threshold" % (p, float(d[0])))
                    return
            if d is None:
                lims = [(vals(mm, [lo])[0], vals(mm, [hi])[0]) for _, mm in ([(0, pm)] if lev is None else [(0, pm), (1, ms[c])])]
                if kind != "qr" and all(x <= p - 1e-6 and y >= p + 1e-6 for x, y in lims):
                    res.violate("refused:" + kind, "detection size %s refused although the curves go from %s" % (args, lims))
                    return
                w.count("detection_refused")
                continue
            w.count("detection_given")
            if len(d) != (1 if lev is None else 2):
                res.violate("detection:" + kind, "%d detection sizes for %s" % (len(d), args))
                return
            # 0.57 * 100 is 56.99...
            labels = [str(t) for t in d.getDescription()]
            named = ["a%d" % round(p * 100)] + ([] if lev is None else ["a%d/%d" % (round(p * 100), round(lev * 100))])
            if labels != named and abs(lev is not None and lev * 100 - round(lev * 100)) < 1e-6:
                res.violate("label:" + kind, "the detection sizes of %s are labelled %s" % (args, labels))
                return
            for j, mm in tasks:
                a = float(d[j])
                if not (lo - 1e-9 * (1 + abs(lo)) <= a <= hi + 1e-9 * (1 + abs(hi))):
                    res.violate("detection:" + kind, "detection size %s of %s outside of the studied interval [%s, %s]" % (a, args, lo, hi))
                    return
                h = 3e-4 * (hi - lo) + 5e-5 * max(abs(lo), abs(hi))     # precision of the solver
                around = vals(mm, np.clip([a - h, a - h / 2, a - h / 8, a, a + h / 8, a + h / 2, a + h], lo, hi))
                if np.isnan(around).any():
                    continue
                if not (around.min() - 1e-6 <= p <= around.max() + 1e-6):
                    res.violate("detection:" + kind, "the curve is %s at %s, given as the detection size of %s" % (vals(mm, [a])[0], a, args))
                    return
    if plan["draw"]:
        drawing(plan, st, lo, hi, pm, ms, res)


def in_order(m, q, lo, hi):
    """Increasing on the whole interval."""
    v = vals(m, np.linspace(max(lo, 0.0), hi, 40))
    v = v[~np.isnan(v)]
    return bool(np.all(np.diff(v) >= -1e-12))


def qr_regular(st, spec, ls):
    """Sizes of the quantiles positive and in order at every level."""
    ref = Ref(st, spec, None)
    obj = st.obj
    D = getattr(obj, "_defectsPerQuantile", None)
    if D is None:
        return False
    for c in ls:
        s = np.array(D.computeQuantilePerComponent(c))
        if (s <= 0).any() or (np.diff(s) < 0).any() or s[-1] >= ref.x.max():
            return False
    return True


def qr_size(st, spec, p, a, lo, hi):
    ref = Ref(st, spec, None)
    h = 2e-3 * (hi - lo)
    for tol in (1e-2, 1e-6):
        b = q_fit(ref.x, ref.y, 1.0 - p, tol)
        if abs((ref.det - b[0]) / b[1] - a) <= h:
            return True
    # flat regression lines: judged by the signal
    f = b[0] + b[1] * a
    return abs(f - ref.det) <= 1e-6 * (1 + np.ptp(ref.y))


def drawing(plan, st, lo, hi, pm, ms, res):
    kind, obj = st.kind, st.obj
    c = plan["levels"][0]
    for lev in (None, c):
        try:
            fig, ax = obj.drawPOD(None, lev)
        except SimHang:
            raise
        except Exception as e:  # noqa
            if kind == "qr":
                continue
            res.violate("drawing:" + kind, "drawPOD(None, %s): %r" % (lev, e))
            return
        got = {}
        for l in ax.get_lines():
            got[str(l.get_label())] = (np.ravel(l.get_xdata(orig=True)).astype(float), np.ravel(l.get_ydata(orig=True)).astype(float))
        close(fig)
        want = {"POD": pm}
        if lev is not None:
            want["POD at confidence level " + str(lev)] = ms[c]
        for k, m in want.items():
            if k not in got:
                res.violate("drawing:" + kind, "no curve %r among %s" % (k, sorted(got)))
                return
            x, y = got[k]
            if abs(x.min() - lo) > 1e-9 * (1 + abs(lo)) or abs(x.max() - hi) > 1e-9 * (1 + abs(hi)) or len(x) < 2 or not near(y, vals(m, x), 1e-12):
                res.violate("drawing:" + kind, "the curve %r drawn is not the reported one on [%s, %s]" % (k, lo, hi))
                return
