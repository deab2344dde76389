"""Studies: what a user of otpod builds, runs and asks, described by JSON
specifications so that one plan is one exactly repeatable execution."""
import hashlib, json, math, os, random
from .core import *  # noqa
from . import core

KINDS_LIN = ["ana", "gauss", "bin", "ks", "lap", "alin", "qr"]
KINDS_META = ["chaos1", "chaos", "krig"]
KINDS_ADAPT = ["asig", "hm"]
KINDS_SENS = ["sobol", "plim", "pliv"]
KINDS_ALL = KINDS_LIN + KINDS_META + KINDS_ADAPT + KINDS_SENS + ["summary"]
POD_KINDS = ["gauss", "bin", "ks", "lap", "alin", "qr", "chaos1", "chaos", "krig", "asig", "hm"]


# --------------------------------------------------------------------- data
def _sig(u, d):
    """Noiseless signal for normalised inputs u (n, dim)."""
    u = np.atleast_2d(u)
    k = d["k"]
    t = 10.0 * u[:, 0]
    for j in range(1, u.shape[1]):
        t = t + k[j] * (u[:, j] - 0.5)
    if u.shape[1] > 1:
        t = t + d["nl"] * np.sin(3 * u[:, 1]) * (0.5 + u[:, 0])
    if d["shape"] == "exp":
        t = 10.0 * np.exp((t - 5.0) / 4.0)
    return d["scale"] * (t + d["off"])


def _norm(X, d):
    X = np.atleast_2d(np.asarray(X, dtype=float))
    U = np.empty_like(X)
    for j in range(X.shape[1]):
        lo, hi = d["box"][j]
        U[:, j] = (X[:, j] - lo) / (hi - lo)
    return U


_DATA = {}


def make_data(d):
    key = json.dumps(d, sort_keys=True)
    if key in _DATA:
        X, Y = _DATA[key]
        return X.copy(), Y.copy()
    rs = np.random.RandomState(d["seed"])
    n, dim = d["n"], d["dim"]
    U = rs.uniform(size=(n, dim))
    if d["design"] == "lhs":
        for j in range(dim):
            U[:, j] = (rs.permutation(n) + 0.5) / n
    if d["design"] == "sorted":
        U[:, 0] = np.sort(U[:, 0])
    if d["design"] == "ties" and dim == 1:
        U[:, 0] = np.round(U[:, 0] * 8) / 8.0
    X = np.empty_like(U)
    for j in range(dim):
        lo, hi = d["box"][j]
        X[:, j] = lo + (hi - lo) * U[:, j]
    Y = _sig(_norm(X, d), d)
    Y = Y + d["scale"] * d["noise"] * rs.standard_normal(n)
    if d.get("binary"):
        thr = detection(d)
        Y = (Y > thr).astype(float)
    Y = Y.reshape(-1, 1)
    if d.get("cut"):
        lo, hi = d["cut"]
        keep = np.ones(len(Y), bool)
        if lo is not None:
            keep &= Y[:, 0] > lo
        if hi is not None:
            keep &= Y[:, 0] < hi
        X, Y = X[keep], Y[keep]
    if d.get("perm") is not None:
        p = np.random.RandomState(d["perm"]).permutation(len(Y))
        X, Y = X[p], Y[p]
    _DATA[key] = (X, Y)
    return X.copy(), Y.copy()


def detection(d):
    u = np.full((1, d["dim"]), 0.5)
    u[0, 0] = d["dq"]
    v = float(_sig(u, d)[0])
    return 0.0 if abs(v) < 1e-9 * d["scale"] else v


FORCED = []     # data sets to use again when their dimension fits


def gen_data(r, dim, n=None, noise=None, binary=False):
    for d in FORCED:
        if d["dim"] == dim and bool(d["binary"]) == bool(binary):
            return json.loads(json.dumps(d))
    box = []
    lo = r.choice([0.1, 0.1, 0.5, 2.0, 0.0, 10.0])
    w = r.choice([0.9, 0.6, 1.0, 5.0, 20.0])
    box.append([lo, lo + w])
    for j in range(1, dim):
        c = r.choice([0.0, -1.0, 3.0, -10.0])
        box.append([c, c + r.choice([1.0, 2.0, 8.0])])
    if dim == 1:
        n = n or r.choice([14, 20, 25, 30, 40, 55])
        noise = noise if noise is not None else r.choice([0.3, 0.6, 1.0, 1.5])
    else:
        n = n or r.choice([14, 18, 22, 28])
        noise = noise if noise is not None else r.choice([0.0, 0.05, 0.3])
    return dict(seed=r.randrange(10 ** 6), n=n, dim=dim, box=box, noise=noise,
                k=[0.0] + [r.choice([2.0, -1.5, 3.0, 0.5, -2.5]) for _ in range(dim - 1)],
                nl=r.choice([0.0, 1.0, 1.5]), shape=r.choice(["lin", "lin", "lin", "exp"]),
                scale=r.choice([1.0, 1.0, 3.0, 0.1, 50.0]), off=r.choice([2.0, 5.0, 20.0]),
                dq=r.choice([0.3, 0.4, 0.5, 0.55]), design=r.choice(["unif", "lhs", "sorted", "ties"] if dim == 1 else ["unif", "lhs"]),
                binary=binary)


# ------------------------------------------------------------------ objects
def make_obj(j, env=None):
    """JSON description -> OpenTURNS object (shared through env if given)."""
    if not (isinstance(j, dict) and "$" in j):
        return j
    key = json.dumps(j, sort_keys=True)
    if env is not None and key in env:
        return env[key]
    k = j["$"]
    if k == "dist":
        ms = []
        for (lo, hi), t in zip(j["box"], j["t"]):
            if t == "U":
                ms.append(ot.Uniform(lo, hi))
            elif t == "N":
                ms.append(ot.Normal(0.5 * (lo + hi), (hi - lo) / 5.0))
            elif t == "T":
                ms.append(ot.Triangular(lo, 0.3 * lo + 0.7 * hi, hi))
            else:
                ms.append(ot.TruncatedNormal(0.5 * (lo + hi), (hi - lo) / 4.0, lo, hi))
        if j.get("rho"):
            R = ot.CorrelationMatrix(len(ms))
            if len(ms) > 1:
                R[len(ms) - 2, len(ms) - 1] = j["rho"]
            o = ot.JointDistribution(ms, ot.NormalCopula(R))
        else:
            o = ot.JointDistribution(ms)
    elif k == "cov":
        th, a = j["theta"], [j["amp"]]
        o = {"SE": lambda: ot.SquaredExponential(th, a), "M": lambda: ot.MaternModel(th, a, 2.5),
             "AE": lambda: ot.AbsoluteExponential(th, a)}[j["name"]]()
    elif k == "basis":
        d = j["dim"]
        names = ["x%d" % i for i in range(d)]
        fs = [ot.SymbolicFunction(names, ["1"])]
        if j["name"] != "const":
            for i in range(d if j["name"] == "lin" else 1):
                fs.append(ot.SymbolicFunction(names, [names[i]]))
        o = ot.Basis(fs)
    elif k == "strategy":
        ms = make_obj(j["dist"])
        d = ms.getDimension()
        e = ot.LinearEnumerateFunction(d)
        b = ot.OrthogonalProductPolynomialFactory(
            [ot.StandardDistributionPolynomialFactory(ms.getMarginal(i)) for i in range(d)], e)
        o = ot.FixedStrategy(b, e.getStrataCumulatedCardinal(j["degree"]))
    elif k == "proj":
        o = ot.LeastSquaresStrategy(ot.LeastSquaresMetaModelSelectionFactory(ot.LARS(), ot.CorrectedLeaveOneOut())) if j.get("lars") else ot.LeastSquaresStrategy()
    elif k == "gk":
        o = ot.GaussKronrod(j["n"], 1e-5, ot.GaussKronrodRule(getattr(ot.GaussKronrodRule, j.get("rule", "G7K15"))))
    elif k == "np":
        o = np.array(j["v"], dtype=float)
    elif k == "sample":
        o = ot.Sample([[x] for x in j["v"]])
    elif k == "point":
        o = ot.Point(j["v"])
    elif k == "tuple":
        o = tuple(j["v"])
    elif k == "list":
        o = json.loads(json.dumps(j["v"]))
    elif k == "npview":
        o = np.full(2 * len(j["v"]) + 1, 7.5)[1::2]
        o[:] = j["v"]
    elif k == "metares":
        # a metamodel result the user built elsewhere
        keep = get_rng()
        seed_rng(5)
        st = Study(dict(j["spec"], verbose=False))
        st.build()
        st.run()
        o = st.obj.getPolynomialChaosResult() if j["spec"]["kind"].startswith("chaos") else st.obj.getKrigingResult()
        set_rng(keep)
    elif k == "bad":
        o = {"str": "nonsense", "none": None, "list": [1.0, 2.0], "int": 3, "normal": ot.Normal(2), "obj": object()}[j["v"]]
    else:
        raise HarnessError(k)
    if env is not None:
        env[key] = o
    return o


def container(A, how):
    """The same numbers in another container."""
    A = np.array(A, dtype=float)
    if how == "np":
        return A
    if how == "npF":
        return np.asfortranarray(A)
    if how == "view":
        B = np.full((A.shape[0] * 2, A.shape[1] + 1), 7.5)
        B[::2, :A.shape[1]] = A
        return B[::2, :A.shape[1]]
    if how == "list":
        return [[float(v) for v in row] for row in A]
    if how == "tuple":
        return tuple(tuple(float(v) for v in row) for row in A)
    if how == "flat":
        return A.ravel().copy() if A.shape[1] == 1 else A
    if how == "flatlist":
        return [float(v) for v in A.ravel()] if A.shape[1] == 1 else [[float(v) for v in row] for row in A]
    if how == "sample":
        return ot.Sample(A)
    if how == "ro":
        A.setflags(write=False)
        return A
    raise HarnessError(how)


CONTS = ["np", "npF", "view", "list", "tuple", "flat", "flatlist", "sample"]


class Model(object):
    """The user's physical model: logs what it was asked and answered; may be
    noisy, slow, or fail at given calls."""

    def __init__(self, d, jitter=0.0, latency=0.0):
        self.d = d
        self.jitter = jitter
        self.latency = latency
        self.calls = []       # (x, y) answered
        self.asked = 0
        self.fail = set()
        self.hook = None
        self.binary = False

    def value(self, x, i):
        y = float(_sig(_norm(np.array([x]), self.d), self.d)[0])
        if self.jitter:
            y += self.jitter * self.d["scale"] * math.sin(12.9898 * (i + 1) + 78.233 * x[0])
        if self.binary:
            y = 1.0 if y > detection(self.d) else 0.0
        return y

    def __call__(self, x):
        i = self.asked
        self.asked += 1
        x = [float(v) for v in x]
        if core.WORLD is not None:
            core.WORLD.advance(self.latency)
            core.WORLD.count("model_calls")
        if self.hook is not None:
            self.hook(self, i, x)
        if i in self.fail:
            if core.WORLD is not None:
                core.WORLD.count("fault:model")
            raise RuntimeError("simulated failure of the physical model")
        y = self.value(x, i)
        self.calls.append((x, y))
        return [y]


# -------------------------------------------------------------------- specs
def sizes_in(r, d, m=None):
    """Defect sizes inside the data range (which is inside box[0])."""
    X, Y = make_data(d)
    lo, hi = float(X[:, 0].min()), float(X[:, 0].max())
    m = m or r.choice([2, 3, 4])
    return sorted(lo + (hi - lo) * (i + r.uniform(0.2, 0.8)) / m for i in range(m))


def data_range(spec):
    d = spec["data"]
    X, Y = make_data(d)
    keep = np.ones(len(X), bool)
    if spec.get("nt") is not None:
        keep &= Y[:, 0] > spec["nt"]
    if spec.get("st") is not None:
        keep &= Y[:, 0] < spec["st"]
    Z = X[keep]
    return float(Z[:, 0].min()), float(Z[:, 0].max())


def spec_sizes(r, spec, m=None):
    lo, hi = data_range(spec)
    m = m or r.choice([2, 3, 4])
    return sorted(lo + (hi - lo) * (i + r.uniform(0.2, 0.8)) / m for i in range(m))


def near_sizes(r, spec, m=None, degenerate=0.25):
    """Sizes around the crossing of the threshold, where the other inputs
    matter; now and then one far from it."""
    d = spec["data"]
    lo, hi = data_range(spec)
    b0, b1 = d["box"][0]
    m = m or r.choice([2, 3])
    c = b0 + (b1 - b0) * d["dq"]
    w = 0.1 * (b1 - b0)
    out = [min(max(c + w * (2.0 * (i + r.uniform(0.2, 0.8)) / m - 1.0), lo), hi) for i in range(m)]
    if r.random() < degenerate:
        out[r.randrange(m)] = r.choice([lo, hi])
    out = sorted(set(out))
    return out if len(out) > 1 else sorted([lo + 0.4 * (hi - lo), lo + 0.5 * (hi - lo)])


def gen_dist(r, d, rho_ok=True, types="UNTt"):
    return {"$": "dist", "box": d["box"], "t": [r.choice(types) for _ in d["box"]],
            "rho": r.choice([None, None, 0.5]) if rho_ok and d["dim"] > 2 else None}


def _censor(r, spec, p=0.3, both=True):
    if r.random() < p:
        X, Y = make_data(spec["data"])
        y = np.sort(Y[:, 0])
        n = len(y)
        if both or r.random() < 0.5:
            # thresholds strictly between two signals
            spec["nt"] = float(0.5 * (y[n // 10] + y[n // 10 + 1]))
            spec["st"] = float(0.5 * (y[-n // 10] + y[-n // 10 - 1]))
            if not both:
                spec["st"] = None
        else:
            spec["st"] = float(0.5 * (y[-n // 10] + y[-n // 10 - 1]))


def sides(r, s, zero=0.2):
    """One threshold only; a threshold, or the detection, of exactly zero."""
    d = s["data"]
    if s["nt"] is not None and s["st"] is not None:
        t = r.random()
        if t < 0.2:
            s["nt"] = None
        elif t < 0.4:
            s["st"] = None
    if s["box"] is not False or d["binary"] or d["shape"] != "lin":
        return
    t = r.random()
    names = [x for x in ("nt", "st") if s[x] is not None]
    if names and t < zero:
        v = s[r.choice(names)]
    elif t < 0.03:
        v = detection(d)
    else:
        return
    e = dict(d, off=d["off"] - v / d["scale"])
    Y, Z = make_data(d)[1][:, 0], make_data(e)[1][:, 0]
    new = {x: 0.0 if s[x] == v else s[x] - v for x in names}
    for x in names:
        if ((Y > s[x]) != (Z > new[x])).any() or (Z == new[x]).any():
            return
    s["data"] = e
    s.update(new)


def neg_signals(r, s):
    """Negative signals: shifted before Box-Cox."""
    if s_box(s) and r.random() < 0.4 and s["data"]["shape"] == "lin":
        s["data"]["off"] = -4.0
        s["data"]["scale"] = min(s["data"]["scale"], 3.0)


def gen_spec(r, kind, lite=True, cens=None, light_sim=True):
    s = dict(kind=kind, nt=None, st=None, box=False, conf=[], cont=[r.choice(CONTS), r.choice(CONTS)])
    C = s["conf"]
    if kind in KINDS_LIN:
        s["data"] = gen_data(r, 1)
        s["box"] = r.choice([False, False, True])
        if s["box"] and r.random() < 0.25:
            s["data"]["off"] = -3.0   # negative signals: shifted before Box-Cox
        _censor(r, s, 0.3 if cens is None else cens, both=True)
        if kind == "qr" and s_box(s):
            s["data"]["off"] = max(s["data"]["off"], 2.0)
        if s["nt"] is not None and s_box(s) and s["data"]["off"] < 0:
            s["nt"] = None             # no transform of a noise threshold below zero
            if r.random() < 0.5:
                s["st"] = None
        if kind in ("ana", "alin"):
            s["fact"] = r.choice(["Normal", "Normal", "Logistic", "KS"] if kind == "ana" else ["Normal", "KS", "Laplace"])
        else:
            s["fact"] = {"gauss": "Normal", "bin": None, "ks": "KS", "lap": r.choice(["Laplace", "Logistic"])}.get(kind)
        if kind not in ("ana", "bin"):
            C.append(["SimulationSize", r.choice([3, 5, 8, 12] if kind in ("ks", "qr", "alin", "lap") else [5, 20, 50])])
        if kind == "qr":
            C.append(["Quantile", sorted(r.sample([0.1, 0.2, 0.35, 0.5, 0.6, 0.7, 0.8, 0.9], r.choice([3, 4])))])
        if s["nt"] is not None and kind in ("ks", "lap", "alin"):
            C[0][1] = 3
    elif kind in ("chaos1", "chaos", "krig"):
        dim = 1 if kind == "chaos1" else r.choice([2, 3, 3, 4])
        s["data"] = gen_data(r, dim, n=r.choice([24, 30, 36]) if "chaos" in kind else None, noise=r.choice([0.2, 0.5]) if "chaos" in kind else None)
        s["box"] = r.choice([False, False, False, True])
        if s["box"]:
            s["data"]["off"] = max(s["data"]["off"], 5.0)
        neg_signals(r, s)
        _censor(r, s, 0.2 if cens is None else cens, both=r.random() < 0.5)
        C.append(["SimulationSize", r.choice([3, 6, 10])])
        C.append(["SamplingSize", r.choice([8, 20, 40])])
        if r.random() < 0.85:
            C.append(["DefectSizes", spec_sizes(r, s)])
        if r.random() < 0.4:
            C.append(["Distribution", gen_dist(r, s["data"])])
        if kind == "krig":
            if r.random() < 0.6:
                C.append(["CovarianceModel", gen_cov(r, dim)])
            if r.random() < 0.35:
                C.append(["Basis", {"$": "basis", "dim": dim, "name": r.choice(["const", "lin0", "lin"])}])
            C.append(["InitialStartSize", r.choice([0, 0, 1, 2])])
        else:
            C.append(["Degree", r.choice([1, 2, 2, 3] if dim < 3 else [1, 2])])
            if r.random() < 0.2:
                dist = {"$": "dist", "box": s["data"]["box"], "t": ["U"] * dim, "rho": None}
                C.append(["AdaptiveStrategy", {"$": "strategy", "dist": dist, "degree": r.choice([1, 2])}])
            if r.random() < 0.15:
                C.append(["ProjectionStrategy", {"$": "proj", "lars": r.random() < 0.5}])
    elif kind == "asig":
        dim = r.choice([2, 3, 3, 4])
        s["data"] = gen_data(r, dim, n=r.choice([12, 15, 18]), noise=0.0)
        s["box"] = r.choice([False, False, False, True])
        if s["box"]:
            s["data"]["off"] = max(s["data"]["off"], 5.0)
        neg_signals(r, s)
        _censor(r, s, 0.2 if cens is None else cens, both=False)
        s["n"] = r.choice([1, 2, 2, 3])
        s["jit"] = r.choice([0.0, 0.0, 0.3])
        C.append(["SimulationSize", r.choice([3, 5])])
        C.append(["SamplingSize", r.choice([6, 10])])
        C.append(["CandidateSize", s["n"] + r.choice([1, 2, 4])])
        C.append(["DefectSizes", spec_sizes(r, s, r.choice([2, 3]))])
        C.append(["InitialStartSize", r.choice([0, 0, 1])])
        C.append(["CovarianceModel", gen_cov(r, dim)])
        if r.random() < 0.3:
            C.append(["Basis", {"$": "basis", "dim": dim, "name": r.choice(["const", "lin0", "lin"])}])
        if r.random() < 0.4:
            C.append(["Distribution", gen_dist(r, s["data"], types="UTt")])
    elif kind == "hm":
        dim = r.choice([1, 2, 3, 4])
        binary = r.random() < 0.5
        s["data"] = gen_data(r, dim, n=r.choice([16, 24, 30]), noise=r.choice([0.0, 0.5]), binary=binary)
        s["data"]["shape"] = "lin"
        s["n"] = r.choice([0, 1, 3, 5, 6, 11])
        s["jit"] = r.choice([0.0, 0.0, 0.3])
        clf = r.choice(["rf", "rf", "svc"])
        C.append(["ClassifierType", clf])
        if clf == "rf":
            C.append(["ClassifierParameters", [[r.choice([5, 10])], [r.choice([None, 3])], [2], [r.choice([0, 0, None, 7])]]])
        elif r.random() < 0.5:
            C.append(["ClassifierParameters", [[r.choice([0.5, 1.0, 10.0])], [r.choice(["poly", "rbf", "linear"])], [r.choice([2, 3])], [True]]])
        C.append(["SamplingSize", r.choice([10, 20])])
        C.append(["CandidateSize", s["n"] + r.choice([6, 20, 60])])
        C.append(["DefectSizes", spec_sizes(r, s)])
        if r.random() < 0.3:
            C.append(["PMin", r.choice([0.3, 0.1, 0.48])])
            C.append(["PMax", r.choice([0.6, 0.9, 0.5])])
        if r.random() < 0.3:
            C.append(["Distribution", gen_dist(r, s["data"], types="UTt")])
    elif kind in KINDS_SENS:
        bk = r.choice(["krig", "krig", "chaos", "asig"] if kind != "pliv" else ["krig", "chaos"])
        for _ in range(50):
            b = gen_spec(r, bk, cens=0.1)
            if b["data"]["dim"] >= 3 and b["data"]["shape"] == "lin":
                break
        else:
            raise HarnessError("no base")
        b["data"]["k"] = [0.0] + [r.choice([4.0, -3.0, 6.0]) for _ in b["data"]["k"][1:]]
        b["nt"] = b["st"] = None
        _censor(r, b, 0.1, both=False)
        b["conf"] = [c for c in b["conf"] if c[0] not in ("Distribution", "AdaptiveStrategy")]
        types = "N" if kind == "pliv" else r.choice(["U", "N", "UN"] if kind == "plim" else ["U", "N", "UNt"])
        dist = {"$": "dist", "box": b["data"]["box"], "t": ["U"] + [r.choice(types) for _ in b["data"]["box"][1:]], "rho": None}
        if types != "U" or r.random() < 0.5:
            b["conf"].append(["Distribution", dist])
        for c in b["conf"]:
            if c[0] == "DefectSizes":
                c[1] = near_sizes(r, b, r.choice([2, 3]))
        if not any(c[0] == "DefectSizes" for c in b["conf"]):
            b["conf"].append(["DefectSizes", near_sizes(r, b, 3)])
        s["base"] = b
        s["data"] = b["data"]
        s["nt"], s["st"] = b["nt"], b["st"]
        if kind == "sobol":
            s["N"] = r.choice([20, 40, 64])
            C.append(["SimulationSize", r.choice([5, 10])])
            C.append(["SensitivityMethod", r.choice(["Saltelli", "Jansen", "Martinez", "MauntzKucherenko"])])
            if r.random() < 0.5:
                C.append(["DefectSizes", near_sizes(r, b, r.choice([2, 3, 4]))])
        else:
            s["delta"] = r.choice([[-0.5, 0.4], [-1.0, -0.3, 0.5], [0.3, 0.8]]) if kind == "plim" else r.choice([[0.8, 1.2], [0.6, 0.9, 1.3]])
            s["scaled"] = True
            if kind == "plim" and r.random() < 0.25:
                s["delta"] = [[x + 0.05 * k for k in range(b["data"]["dim"] - 1)] for x in s["delta"]]
            C.append(["SamplingSize", r.choice([60, 120])])
            if r.random() < 0.5:
                C.append(["DefectSizes", near_sizes(r, b, r.choice([2, 3, 3, 4]), 0.5)])
            if r.random() < 0.3:
                C.append(["Distribution", dict(dist, box=dist["box"][1:], t=dist["t"][1:])])
    elif kind == "summary":
        dim = r.choice([1, 2, 3])
        s["data"] = gen_data(r, dim, n=r.choice([22, 26, 30]), noise=r.choice([0.3, 0.6]))
        s["data"]["design"] = "unif"
        s["box"] = r.choice([False, False, True])
        s["data"]["off"] = max(s["data"]["off"], 5.0)
        _censor(r, s, 0.25 if cens is None else cens, both=True)
        C.append(["SimulationSize", r.choice([3, 4])])
        C.append(["SamplingSize", r.choice([10, 20])])
        names = list(METHODS)
        act = [m for m in names if r.random() < 0.6]
        if r.random() < 0.75:
            act = [m for m in act if m != "QuantileRegression"]
        if dim == 1 or r.random() < 0.6:
            act = [m for m in act if m != "Kriging"]
        if s["nt"] is not None and r.random() < 0.6:
            act = [m for m in act if m != "LinearKernelSmoothing"]
        if not act:
            act = ["LinearGauss"]
        s["active"] = act
    else:
        raise HarnessError(kind)
    for c in C:
        if c[0] in ("DefectSizes", "Quantile") and r.random() < 0.15:
            r.shuffle(c[1])            # in any order
    given_box(r, s)
    if kind not in KINDS_SENS:
        sides(r, s)
    s["verbose"] = r.choice([True, False])
    if kind in ("ana", "sobol", "plim", "pliv"):
        s["verbose"] = None
    return s


METHODS = ["LinearGauss", "LinearBinomial", "LinearKernelSmoothing", "QuantileRegression", "PolynomialChaos", "Kriging"]


def gen_cov(r, dim):
    return {"$": "cov", "name": r.choice(["SE", "M", "SE", "AE"]), "theta": [r.choice([1.0, 2.0, 0.7]) for _ in range(dim)], "amp": r.choice([1.0, 5.0])}


FACT = {"Normal": lambda: ot.NormalFactory(), "KS": lambda: ot.KernelSmoothing(), "Laplace": lambda: ot.LaplaceFactory(),
        "Logistic": lambda: ot.LogisticFactory()}


def get_conf(spec, name, default=None):
    v = default
    for k, x in spec["conf"]:
        if k == name:
            v = x
    return v


def with_conf(spec, name, value):
    s = json.loads(json.dumps(spec))
    s["conf"] = [c for c in s["conf"] if c[0] != name] + [[name, value]]
    return s


# ------------------------------------------------------------------ figures
def figprint(fig, ax=None):
    """What a figure shows."""
    out = []
    for a in fig.axes:
        e = dict(title=a.get_title(), xl=a.get_xlabel(), yl=a.get_ylabel(), lines=[], coll=[], pat=[], img=[], txt=[])
        for ln in a.get_lines():
            x, y = ln.get_xdata(orig=True), ln.get_ydata(orig=True)
            lab = str(ln.get_label())
            e["lines"].append([np.ravel(np.array(x, dtype=float)).tolist(), np.ravel(np.array(y, dtype=float)).tolist(),
                               "" if lab.startswith("_") else lab, matplotlib.colors.to_hex(ln.get_color()), str(ln.get_linestyle()), str(ln.get_marker())])
        for c in a.collections:
            pts = []
            for p in c.get_paths()[:60]:
                pts.append(np.asarray(p.vertices, dtype=float).tolist())
            lab = str(c.get_label())
            e["coll"].append([type(c).__name__, pts, "" if lab.startswith("_") else lab])
        for p in a.patches[:200]:
            if hasattr(p, "get_x"):
                e["pat"].append([float(p.get_x()), float(p.get_y()), float(p.get_width()), float(p.get_height())])
            elif hasattr(p, "get_xy"):
                e["pat"].append(np.asarray(p.get_xy(), dtype=float).tolist())
        for im in a.images:
            arr = np.ma.filled(np.ma.asarray(im.get_array(), dtype=float), np.nan)
            e["img"].append([arr.tolist(), [float(v) for v in im.get_extent()]])
        e["txt"] = [t.get_text() for t in a.texts]
        lg = a.get_legend()
        e["legend"] = [t.get_text() for t in lg.get_texts()] if lg is not None else None
        e["xlim"] = [float(v) for v in a.get_xlim()]
        e["ylim"] = [float(v) for v in a.get_ylim()]
        e["xt"] = [t.get_text() for t in a.get_xticklabels()]
        e["grid"] = bool(a.xaxis.get_gridlines() and a.xaxis.get_gridlines()[0].get_visible())
        out.append(e)
    return out


def close(fig):
    try:
        plt.close(fig)
    except Exception:
        pass


# ------------------------------------------------------------------- study
class Refuse(Exception):
    pass


def _nth(spec):
    return 0


def ana_key(s):
    return "ana:" + json.dumps([s["data"], s["cont"], s["nt"], s["st"], s["fact"], s["box"]], sort_keys=True)


class Study(object):
    def __init__(self, spec, env=None, model=None):
        self.spec = spec
        self.kind = spec["kind"]
        self.env = env
        self.obj = None
        self.model = model
        self.base = None
        self.ana = None
        self.args = {}
        self._ctr = 0

    # -- construction -----------------------------------------------------
    def _data(self):
        s = self.spec
        X, Y = make_data(s["data"])
        key = None
        if self.env is not None:
            key = "data:" + json.dumps([s["data"], s["cont"]], sort_keys=True)
            if key in self.env:
                return self.env[key]
        v = (container(X, s["cont"][0]), container(Y, s["cont"][1]))
        if self.env is not None:
            self.env[key] = v
        return v

    def fact(self):
        f = self.spec.get("fact")
        if f is None:
            return None
        if self.env is not None:
            return self.env.setdefault("fact:" + f, FACT[f]())
        return FACT[f]()

    def det(self):
        return detection(self.spec["data"])

    def build(self):
        s, k = self.spec, self.kind
        if k in KINDS_SENS:
            if self.base is None:
                self.base = Study(s["base"], self.env)
                self.base.build()
                self.base.run()
            b = self.base.obj
            if k == "sobol":
                self.obj = otpod.SobolIndices(b, s["N"])
            elif k == "plim":
                self.obj = otpod.PLIMean(b, make_obj(s["delta"], self.env), s["scaled"])
            else:
                self.obj = otpod.PLIVariance(b, make_obj(s["delta"], self.env), s["scaled"])
        else:
            X, Y = self._data()
            self.args["X"], self.args["Y"] = X, Y
            nt, st, box = s["nt"], s["st"], as_given(s)
            if k == "ana":
                return self
            if k in ("gauss", "bin", "ks", "lap"):
                self.obj = otpod.UnivariateLinearModelPOD(X, Y, self.det(), nt, st, self.fact(), box)
            elif k == "alin":
                self.ana = (self.env or {}).get(ana_key(s)) or otpod.UnivariateLinearModelAnalysis(X, Y, nt, st, self.fact(), box)
                self.obj = otpod.UnivariateLinearModelPOD(analysis=self.ana, detection=self.det())
            elif k == "qr":
                self.obj = otpod.QuantileRegressionPOD(X, Y, self.det(), nt, st, box)
            elif k in ("chaos", "chaos1"):
                self.obj = otpod.PolynomialChaosPOD(X, Y, self.det(), nt, st, box)
            elif k == "krig":
                self.obj = otpod.KrigingPOD(X, Y, self.det(), nt, st, box)
            elif k in ("asig", "hm"):
                if self.model is None:
                    mk = "model:" + json.dumps([s["data"], s.get("jit")], sort_keys=True)
                    if self.env is not None and mk in self.env:
                        self.model = self.env[mk]
                    else:
                        self.model = Model(s["data"], s.get("jit", 0.0), latency=1.0)
                        self.model.binary = bool(k == "hm" and s["data"]["binary"])
                        if self.env is not None:
                            self.env[mk] = self.model
                fk = "fn:%d" % id(self.model)
                f = (self.env or {}).get(fk) or ot.PythonFunction(s["data"]["dim"], 1, self.model)
                if self.env is not None:
                    self.env[fk] = f
                if k == "asig":
                    self.obj = otpod.AdaptiveSignalPOD(X, Y, f, s["n"], self.det(), nt, st, box)
                else:
                    self.obj = otpod.AdaptiveHitMissPOD(X, Y, f, s["n"], None if s["data"]["binary"] else self.det(), nt, st)
            elif k == "summary":
                self.obj = otpod.PODSummary(X, Y, self.det(), nt, st, box)
                for m in METHODS:
                    self.obj.setMethodActive(m, m in s["active"])
            else:
                raise HarnessError(k)
        if s.get("verbose") is not None:
            self.obj.setVerbose(s["verbose"])
        for name, v in s["conf"]:
            self.set(name, v)
        return self

    def set(self, name, v):
        v = make_obj(v, self.env)
        if name == "GraphActive":
            return self.obj.setGraphActive(*v)
        if name == "MethodActive":
            return self.obj.setMethodActive(*v)
        return getattr(self.obj, "set" + name)(v)

    def run(self):
        s = self.spec
        if self.kind == "ana":
            X, Y = self.args["X"], self.args["Y"]
            self.obj = otpod.UnivariateLinearModelAnalysis(X, Y, s["nt"], s["st"], self.fact(), as_given(s))
            self._fig_ok = True
            return
        if self.kind == "summary":
            self.obj.run()
            return
        self.obj.run()

    # -- asking -------------------------------------------------------------
    def ask(self, q):
        """The answer as a plain value: ["ok", value] or ["exc", type]."""
        try:
            return ["ok", self.raw(q)]
        except SimHang:
            raise
        except BaseException as e:  # noqa
            return ["exc", type(e).__name__]

    def asks(self, qs):
        return [self.ask(q) for q in qs]

    def raw(self, q):
        return getattr(self, "q_" + q[0])(*q[1:])

    def grid(self):
        spec = self.spec.get("base") or self.spec
        return spec_grid(spec)

    def curve(self, m):
        out = []
        for x in self.grid():
            try:
                out.append(float(m([x])[0]))
            except SimHang:
                raise
            except Exception:
                out.append("refused")
        return out

    def q_pod(self):
        return self.curve(self.obj.getPODModel())

    def q_cl(self, c):
        return self.curve(self.obj.getPODCLModel(c))

    def q_det(self, p, c=None):
        d = self.obj.computeDetectionSize(p) if c is None else self.obj.computeDetectionSize(p, c)
        return [[float(v) for v in d], [str(t) for t in d.getDescription()]]

    def _fig(self, fa):
        fig, ax = fa
        try:
            return figprint(fig)
        finally:
            close(fig)

    def q_draw(self, m, *a):
        """Any draw method returning (fig, ax)."""
        return self._fig(getattr(self.obj, m)(*a))

    def q_get(self, m, *a):
        v = getattr(self.obj, m)(*a)
        if isinstance(v, (list, tuple)) and v and isinstance(v[0], ot.Distribution):
            return [str(x) for x in v]
        return canon(v)

    def q_desc(self, m, *a):
        v = getattr(self.obj, m)(*a)
        return [canon(v), [str(t) for t in v.getDescription()]]

    def path(self, ext):
        # unique in the world: two studies of one run must not meet in a file
        w = core.WORLD
        o = w if w is not None else Study
        o.nfile = getattr(o, "nfile", 0) + 1
        d = w.scratch if w is not None else "/tmp"
        return os.path.join(d, "f%d_%d.%s" % (os.getpid(), o.nfile, ext))

    def q_save(self, m, a, ext):
        """Saving method: fingerprint of the file."""
        p = self.path(ext)
        fa = getattr(self.obj, m)(*a, name=p)
        if isinstance(fa, tuple):
            close(fa[0])
        b = REAL_OPEN(p, "rb").read()
        os.remove(p)
        return [len(b), hashlib.sha256(b).hexdigest()]

    def q_savetxt(self, *a):
        p = self.path("txt")
        self.obj.saveResults(p, *a)
        b = REAL_OPEN(p, "rb").read()
        os.remove(p)
        return b.decode()

    def q_savebad(self, m, a):
        """Saving below a directory which does not exist."""
        p = os.path.join(core.WORLD.scratch, "nowhere", "f.png")
        fa = getattr(self.obj, m)(*a, name=p)
        return "saved"

    def q_printed(self, m, *a):
        out = core.WORLD.stdout
        n = len(out.parts)
        getattr(self.obj, m)(*a)
        return "".join(out.parts[n:])

    # metamodels
    def pts(self):
        spec = self.spec.get("base") or self.spec
        d = spec["data"]
        rs = np.random.RandomState(d["seed"] + 17)
        U = rs.uniform(size=(5, d["dim"]))
        return [[b[0] + (b[1] - b[0]) * u for b, u in zip(d["box"], row)] for row in U]

    def q_meta(self):
        if self.kind in ("chaos", "chaos1"):
            m = self.obj.getPolynomialChaosResult().getMetaModel()
            return [float(m(p)[0]) for p in self.pts()]
        if self.kind in ("krig", "asig"):
            r = self.obj.getKrigingResult()
            c = ot.GaussianProcessConditionalCovariance(r)
            zs = [[0.1 * i + 0.2 * j for j in range(self.spec["data"]["dim"])] for i in range(4)]
            return [[float(r.getMetaModel()(z)[0]) for z in zs], [float(c.getConditionalCovariance(z)[0, 0]) for z in zs],
                    canon(r.getCovarianceModel().getParameter()), canon(r.getTrendCoefficients())]
        if self.kind == "hm":
            f = self.obj.getClassifier()
            return np.asarray(f(np.array(self.pts())), dtype=float).tolist()
        raise HarnessError("meta")

    def q_coefs(self):
        r = self.obj.getPolynomialChaosResult()
        return [np.array(r.getCoefficients()).tolist(), [int(i) for i in r.getIndices()]]

    def q_coefdist(self):
        d = self.obj.getCoefficientDistribution()
        return [canon(d.getMean()), np.array(d.getCovariance()).tolist()]

    def q_doe(self):
        return [np.array(self.obj.getInputDOE()).tolist(), np.array(self.obj.getOutputDOE()).tolist()]

    # sensitivity
    def q_sob(self, what, i=None):
        r = self.obj.getSensitivityResult()
        if what == "agg":
            return [canon(r.getAggregatedFirstOrderIndices()), canon(r.getAggregatedTotalOrderIndices())]
        if what == "first":
            return canon(r.getFirstOrderIndices(i))
        if what == "total":
            return canon(r.getTotalOrderIndices(i))
        if what == "int":
            v = r.getFirstOrderIndicesInterval()
            w = r.getTotalOrderIndicesInterval()
            return [canon(x) for x in (v.getLowerBound(), v.getUpperBound(), w.getLowerBound(), w.getUpperBound())]
        if what == "meth":
            return type(r).__name__

    def q_pli(self, what, *a):
        if what == "ind":
            return np.asarray(self.obj.getIndices(*a), dtype=float).tolist()
        o = self.obj.getPLIObject(a[0])
        if what == "obj":
            return [np.asarray(o.getIndices(), dtype=float).tolist(), np.asarray(o.getDeltaSample(), dtype=float).tolist(),
                    np.asarray(o.getPerturbedProbabilityEstimate(), dtype=float).tolist()]
        if what == "ci":
            return [np.asarray(c, dtype=float).tolist() for c in o.computeConfidenceInterval(a[1])]
        if what == "pdf":
            return self._fig(o.drawMarginal1DPDF(*a[1:]))
        if what == "odraw":
            return self._fig(o.drawIndices(*a[1:]))
        if what == "hel":
            return [o.getOriginalDelta(m) for m in range(a[1])]

    # summary
    def q_sub(self, m, q):
        g = {"LinearGauss": "getLinearGaussPOD", "LinearBinomial": "getLinearBinomialPOD",
             "LinearKernelSmoothing": "getLinearKernelSmoothingPOD", "QuantileRegression": "getQuantileRegressionPOD",
             "PolynomialChaos": "getPolynomialChaosPOD", "Kriging": "getKrigingPOD"}[m]
        o = getattr(self.obj, g)()
        st = Study(dict(self.spec, kind={"PolynomialChaos": "chaos", "Kriging": "krig"}.get(m, "lin")))
        st.obj = o
        return st.raw(q)

    def q_report(self, *a):
        return self.obj.getResults(*a)

    def q_graphs(self, ext, *a):
        d = self.path("dir")
        os.mkdir(d)
        try:
            figs = self.obj.drawGraphs(d, ext, *a)
            out = [[figprint(f) for f in figs]]
            for f in figs:
                close(f)
            fs = {}
            for n in sorted(os.listdir(d)):
                b = REAL_OPEN(os.path.join(d, n), "rb").read()
                fs[n] = [len(b), hashlib.sha256(b).hexdigest()]
            out.append(fs)
            return out
        finally:
            plt.close("all")
            for n in os.listdir(d):
                os.remove(os.path.join(d, n))
            os.rmdir(d)

    # -- settings -----------------------------------------------------------
    def getter(self, name):
        o = self.obj
        if name == "MethodActive":
            return {m: o.getMethodActive(m) if hasattr(o, "getMethodActive") else o._activeMethods[m] for m in METHODS}
        v = getattr(o, "get" + name)()
        return canon(v)


def spec_grid(spec):
    lo, hi = data_range(spec)
    w = hi - lo
    g = [lo, lo + 0.11 * w, lo + 0.23 * w, lo + 0.37 * w, lo + 0.5 * w, lo + 0.61 * w, lo + 0.74 * w, lo + 0.88 * w, hi, hi + 0.2 * w, lo - 0.05 * w]
    for k, v in spec["conf"]:
        if k == "DefectSizes":
            vv = v["v"] if isinstance(v, dict) else v
            g += [float(x) for x in vv]
    return g


# ------------------------------------------------------------------ queries
def pod_group(spec, r):
    """Queries whose answers come from the simulations of one run."""
    ps = r.sample([0.5, 0.9, 0.3, 0.7, 0.6, 0.8, 0.05], 2)
    cs = r.sample([0.95, 0.9, 0.5, 0.8, 0.7, 0.99], 2)
    if r.random() < 0.35:
        # neighbouring levels, which only a sloppy comparison confuses
        ps[1], cs[1] = ps[0] + r.choice([0.004, -0.004, 1e-6]), cs[0] + r.choice([0.004, -0.004, 1e-6])
    qs = [["pod"], ["cl", cs[0]], ["cl", cs[1]], ["det", ps[0]], ["det", ps[1]], ["det", ps[0], cs[0]], ["det", ps[1], cs[1]]]
    d = [["draw", "drawPOD"], ["draw", "drawPOD", None, cs[0]], ["draw", "drawPOD", ps[0], cs[0]], ["draw", "drawPOD", ps[1]]]
    lo, hi = data_range(spec)
    sz = get_conf(spec, "DefectSizes")
    if sz is not None:
        sz = sz["v"] if isinstance(sz, dict) else sz
        lo, hi = min(sz), max(sz)
    w = hi - lo
    d.append(["draw", "drawPOD", ps[0], None, lo + 0.1 * w, hi - 0.1 * w, 30])
    return qs, d


def s_box(spec):
    """Box-Cox is enabled: True, or a number (0.0 included)."""
    return spec["box"] is not False


def as_given(s):
    """A number may come as NumPy's kind of float."""
    return np.float64(s["box"]) if type(s["box"]) is float and s["data"]["seed"] % 2 == 0 else s["box"]


def given_box(r, s):
    """Sometimes the Box-Cox parameter is given."""
    if s["box"] is True and r.random() < 0.3:
        s["box"] = r.choice([0.3, 0.5, 1.0, 0.0, -0.2])


def queries(spec, r, draws=2, saves=0):
    """A list of queries for the study; groups: see `grouped`."""
    k = spec["kind"]
    q, d, s = [], [], []
    lo, hi = data_range(spec.get("base") or spec)
    cens = spec["nt"] is not None or spec["st"] is not None
    ext = r.choice(["png", "pdf"])
    if k in POD_KINDS:
        q, d = pod_group(spec, r)
        s.append(["save", "drawPOD", [], ext])
        if k not in ("hm",):
            q.append(["get", "getBoxCoxParameter"])
            if spec["box"] is True or r.random() < 0.2:
                d.append(["draw", "drawBoxCoxLikelihood"])
        q.append(["get", "getSimulationSize"])
        if k in ("gauss", "bin", "ks", "lap", "alin"):
            q.append(["get", "getR2"])
        if k == "qr":
            q += [["get", "getR2", x] for x in (0.5, 0.9, 0.2)]
            q.append(["get", "getQuantile"])
            d += [["draw", "drawLinearModel", 0.9], ["draw", "drawLinearModel", 0.5]]
        if k in ("chaos", "chaos1"):
            q += [["get", "getR2"], ["get", "getQ2"], ["meta"], ["coefs"], ["coefdist"]]
            d.append(["draw", "drawValidationGraph"])
            if k == "chaos1":
                d.append(["draw", "drawPolynomialChaosModel"])
        if k in ("krig", "asig"):
            q += [["get", "getQ2"], ["meta"]]
            d.append(["draw", "drawValidationGraph"])
        if k in ("chaos", "chaos1", "krig", "asig", "hm"):
            q += [["get", "getDefectSizes"], ["get", "getDistribution"], ["get", "getSamplingSize"]]
        if k in KINDS_ADAPT:
            q += [["doe"]]
        if k == "hm":
            q += [["meta"], ["get", "getConfusionMatrix"], ["get", "getClassifierType"], ["get", "getPMin"], ["get", "getPMax"]]
    elif k == "ana":
        q = [["desc", m] for m in ("getIntercept", "getSlope", "getStandardError", "getR2", "getAndersonDarlingPValue",
                                  "getCramerVonMisesPValue", "getKolmogorovPValue", "getZeroMeanPValue", "getBreuschPaganPValue",
                                  "getHarrisonMcCabePValue", "getDurbinWatsonPValue", "getResiduals")]
        q += [["get", m] for m in ("getBoxCoxParameter", "getInputSample", "getOutputSample", "getResidualsDistribution",
                                  "getNoiseThreshold", "getSaturationThreshold", "getResults")]
        q += [["savetxt"]]
        for m in ("drawLinearModel", "drawResiduals", "drawResidualsQQplot", "drawResidualsDistribution"):
            d.append(["draw", m])
            d.append(["draw", m, "censored"])
            s.append(["save", m, [], ext])
        if spec["box"] is True or r.random() < 0.2:
            d.append(["draw", "drawBoxCoxLikelihood"])
    elif k == "sobol":
        q = [["sob", "agg"], ["sob", "int"], ["sob", "meth"]] + [["sob", "first", i] for i in (0, 1)] + [["sob", "total", i] for i in (0, 1)]
        q += [["get", "getDefectSizes"], ["get", "getSensitivityMethod"], ["get", "getDistribution"], ["get", "getSimulationSize"]]
        d = [["draw", "drawAggregatedIndices"], ["draw", "drawFirstOrderIndices"], ["draw", "drawTotalOrderIndices"],
             ["draw", "drawFirstOrderIndices", ["L%d" % i for i in range(spec["data"]["dim"] - 1)]]]
        s = [["save", "drawAggregatedIndices", [], ext], ["save", "drawTotalOrderIndices", [], ext]]
    elif k in ("plim", "pliv"):
        m = spec["data"]["dim"] - 1
        q = [["pli", "ind"], ["pli", "ind", 0], ["pli", "ind", None, 1], ["pli", "ind", None, None, 0], ["pli", "ind", 1, 0],
             ["pli", "ind", None, 1, 1], ["pli", "ind", 0, None, 1], ["pli", "ind", 0, 1, 0]]
        q += [["pli", "obj", i] for i in (0, 1)] + [["pli", "ci", 0, 0.95], ["pli", "ci", 1, 0.5]]
        q += [["get", "getDefectSizes"], ["get", "getSamplingSize"], ["get", "getDistribution"]]
        multi = isinstance(spec["delta"][0], list)
        d = [["draw", "drawContourIndices", 0]]
        if not multi:
            d += [["draw", "drawIndices", 0], ["draw", "drawIndices", 1, None, None, False], ["draw", "drawIndices", 0, 0.8, ["A%d" % i for i in range(m)], False]]
        d += [["pli", "pdf", 0, 0, 0], ["pli", "pdf", 1, 1, 1, False]]
        s = [["save", "drawContourIndices", [0], ext]]
    elif k == "summary":
        p, c = r.choice([0.9, 0.5, 0.7]), r.choice([0.95, 0.9, 0.8])
        q = [["report", p, c], ["savetxt", p, c]]
        if r.random() < 0.5:
            q.insert(1, ["report", r.choice([p, p + 0.004, 0.6]), c - 0.004])
        for mth in METHODS:
            q += [["sub", mth, ["pod"]], ["sub", mth, ["cl", c]], ["sub", mth, ["det", p]], ["sub", mth, ["det", p, c]]]
        d = [["sub", mth, ["draw", "drawPOD", None, c]] for mth in spec["active"]]
        if saves:
            s = [["graphs", "png", p, c]]
    r.shuffle(d)
    r.shuffle(s)
    return q + d[:draws] + s[:saves]


def bad_queries(spec, r):
    """Queries which must be refused, or may be."""
    k = spec["kind"]
    if k in POD_KINDS:
        q = [["det", 0.99999], ["det", 1.5], ["det", 1e-7, 0.95], ["cl", 1.7], ["cl", -0.2], ["cl", 0.0], ["det", 0.9, 3.0], ["draw", "drawPOD", 2.0, 0.9],
             ["draw", "drawPOD", 0.9999999, 0.9], ["savebad", "drawPOD", []], ["draw", "drawPOD", None, None, 5.0, 1.0]]
    elif k == "ana":
        q = [["draw", "drawResiduals", "nonsense"], ["savebad", "drawLinearModel", []], ["draw", "drawLinearModel", 3]]
    elif k == "sobol":
        q = [["sob", "first", 99], ["savebad", "drawFirstOrderIndices", []], ["draw", "drawTotalOrderIndices", ["a"]]]
    elif k in ("plim", "pliv"):
        q = [["pli", "ind", 99], ["pli", "obj", 50], ["pli", "ind", None, 77], ["pli", "ci", 0, 7.0], ["savebad", "drawContourIndices", [0]], ["pli", "pdf", 0, 44, 44]]
    else:
        q = [["report", 3.0, 0.9], ["report", 0.99999, 0.5], ["report", 0.9, 7.0], ["sub", "LinearGauss", ["det", 0.99999]]]
    r.shuffle(q)
    return q


def settle(answers):
    """None is how some getters refuse."""
    return [["exc", "refused"] if a[0] == "ok" and a[1] is None else a for a in answers]
