"""C14: sensitivity results belong to the sizes, inputs and deltas reported."""
from .common import *  # noqa
import logging

FORCE = bool(os.environ.get("SIM_FORCE_TWO"))      # try out the two-sample comparison
LEVEL = "exploration"
RUNS = dict(quick=800, thorough=20000)
RULE = ("one run = one Sobol or PLI study on a random kriging, chaos or adaptive POD with a random history of settings, runs and interrupted runs; after "
        "every completed run each index, probability, interval and drawing is compared with an executable reference model of that defect size (same random "
        "stream first, two-sample comparison over many streams when the stream is used otherwise), and with studies of that size alone; non-trivial when "
        "a run completed; distinct by configuration and history")
STATES = "distinct (kind, base, method, number of sizes kept/dropped, deltas, history)"
SHRINK = [["hist"], ["spec", "conf"], ["spec", "base", "conf"]]


def wide_sizes(r, spec, m):
    """Grids with sizes where nothing depends on the other inputs at any place."""
    lo, hi = data_range(spec)
    out = near_sizes(r, spec, max(2, m - 1), degenerate=0.0)
    while len(out) < m:
        out.append(r.choice([lo, hi, lo + 0.02 * (hi - lo), hi - 0.01 * (hi - lo), r.uniform(lo, hi)]))
    return sorted(set(out))


def gen(r, i, tier):
    k = ["sobol", "plim", "sobol", "pliv", "plim"][i % 5]
    s = gen_spec(r, k)
    b = s["base"]
    for c in b["conf"]:
        if c[0] == "SimulationSize":
            c[1] = 3
        if c[0] == "SamplingSize":
            c[1] = r.choice([6, 10])
    dim = s["data"]["dim"]
    if k != "sobol":
        if r.random() < 0.4:
            s["delta"] = r.choice([[-0.5, 0.4], [-1.0, -0.3, 0.5, 1.0], [0.3], [0.0, 0.5]]) if k == "plim" else r.choice([[0.05, 0.2], [0.02, 0.1, 0.3], [0.15]])
        if k == "plim" and r.random() < 0.3:
            s["delta"] = [[r.choice([-0.6, -0.2, 0.3, 0.7]) for _ in range(dim - 1)] for _ in range(r.choice([2, 3]))]
        if k == "pliv":
            # absolute variances: around the true ones
            vs = [((hi - lo) / 5.0) ** 2 for lo, hi in s["data"]["box"][1:]]
            s["delta"] = [[v * f for v in vs] for f in r.choice([[0.7, 1.3], [0.6, 0.9, 1.2], [0.8]])]
            s["scaled"] = False
        elif r.random() < 0.25:
            ms = [0.5 * (lo + hi) for lo, hi in s["data"]["box"][1:]]
            ws = [(hi - lo) for lo, hi in s["data"]["box"][1:]]
            s["delta"] = [[m + f * w for m, w in zip(ms, ws)] for f in r.choice([[-0.1, 0.08], [0.05, 0.12, -0.15]])]
            s["scaled"] = False
    hist = []
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        t = r.random()
        if t < 0.35:
            hist.append(["set", "DefectSizes", wide_sizes(r, b, r.choice([2, 3, 4, 5]))])
        elif t < 0.5:
            hist.append(["set", "SensitivityMethod", r.choice(["Saltelli", "Jansen", "Martinez", "MauntzKucherenko"])] if k == "sobol" else
                        ["set", "SamplingSize", r.choice([40, 75])])
        elif t < 0.6 and k == "sobol":
            hist.append(["set", "SimulationSize", r.choice([4, 9])])
        elif t < 0.85:
            hist.append(["run"])
        else:
            hist.append(["broken", r.randrange(1, 400), r.choice(EXCS)])
    hist.append(["run"])
    return dict(spec=s, hist=hist, seed=r.randrange(10 ** 6), drawn=r.random() < 0.5)


class Ref(object):
    """Executable reference of the metamodel behind the POD."""

    def __init__(self, st):
        b = st.base
        self.b = b
        spec = b.spec
        X, Y = make_data(spec["data"])
        keep = np.ones(len(X), bool)
        if spec["nt"] is not None:
            keep &= Y[:, 0] > spec["nt"]
        if spec["st"] is not None:
            keep &= Y[:, 0] < spec["st"]
        X, Y = X[keep], Y[keep]
        self.det = b.det()
        lam = b.obj.getBoxCoxParameter()
        Z = Y
        if lam is not None:
            lam = float(lam)
            sh = -Y.min() + 100 if Y.min() < 0 else 0.0
            tr = ot.BoxCoxTransform([lam])
            Z = np.array(tr(ot.Sample(Y + sh)))
            self.det = float(tr([self.det + sh])[0])
        self.kind = "chaos" if spec["kind"].startswith("chaos") else "krig"
        if self.kind == "krig":
            if spec["kind"] == "asig":
                X = np.array(b.obj.getInputDOE())
            self.mean, self.std = X.mean(axis=0), X.std(axis=0, ddof=1)
            self.res = b.obj.getKrigingResult()
            self.cc = ot.GaussianProcessConditionalCovariance(self.res)
            self.mm = self.res.getMetaModel()
        else:
            self.res = b.obj.getPolynomialChaosResult()
            self.mm = self.res.getMetaModel()
            e = Z - np.array(self.mm(ot.Sample(X)))
            p = self.res.getReducedBasis().getSize()
            self.stderr = math.sqrt((e ** 2).sum() / (len(X) - p - 1))
            self.basis = ot.ComposedFunction(ot.AggregatedFunction(self.res.getReducedBasis()), self.res.getTransformation())

    def _at(self, a, x, raw=False):
        P = np.column_stack([np.full(len(x), a), x])
        return P if raw or self.kind == "chaos" else (P - self.mean) / self.std

    def signal(self, a, x):
        return np.array(self.mm(ot.Sample(self._at(a, x))))[:, 0]

    def pod_krig(self, a, x, raw, avar):
        P = self._at(a, x, raw)
        m = np.array(self.cc.getConditionalMean(ot.Sample(P))).ravel()
        v = np.array([self.cc.getConditionalCovariance(p)[0, 0] for p in (P if avar == a else self._at(avar, x, raw))])
        with np.errstate(all="ignore"):
            q = (self.det - m) / np.sqrt(v)
        return 1.0 - np.array([ot.DistFunc.pNormal(float(u)) for u in q])

    def sobol_outputs(self, st, sizes, n, variant=(False, False), simsize=None):
        """Design and outputs of all sizes for the present generator state."""
        dist = ot.JointDistribution([st.base.obj.getDistribution().getMarginal(i) for i in range(1, st.spec["data"]["dim"])])
        if st.given is not None:
            dist = st.given
        if self.kind == "krig":
            D = ot.SobolIndicesExperiment(dist, n, False).generate()
            x = np.array(D)
            return D, np.column_stack([self.pod_krig(a, x, variant[0], sizes[0] if variant[1] else a) for a in sizes])
        C = np.array(self.b.obj.getCoefficientDistribution().getSample(simsize))
        D = ot.SobolIndicesExperiment(dist, n, False).generate()
        x = np.array(D)
        E = np.array(ot.Normal(len(x)).getSample(simsize)) * self.stderr
        out = []
        for a in sizes:
            S = np.array(self.basis(ot.Sample(self._at(a, x)))) @ C.T
            out.append(np.mean(S + E.T > self.det, axis=1))
        return D, np.column_stack(out)


ALGO = {"Saltelli": ot.SaltelliSensitivityAlgorithm, "Jansen": ot.JansenSensitivityAlgorithm, "Martinez": ot.MartinezSensitivityAlgorithm,
        "MauntzKucherenko": ot.MauntzKucherenkoSensitivityAlgorithm}


class Heard(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.msgs = []

    def emit(self, rec):
        self.msgs.append(rec.getMessage())


def close_to(a, b, tol=1e-6):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    return bool(np.all((np.abs(a - b) <= tol * (1.0 + np.abs(b))) | (np.isnan(a) & np.isnan(b)) | ((a == b))))


def execute(plan, scratch, res):
    spec = plan["spec"]
    w = enter(scratch, budget=20000000)
    seed_rng(plan["seed"])
    st = Study(spec)
    st.given = None
    o = outcome(st.build)
    if o[0] != "ok":
        res.skipped = "study refused"
        return
    for c in spec["conf"]:
        if c[0] == "Distribution":
            st.given = make_obj(c[1])
    kind = spec["kind"]
    ref = Ref(st)
    heard = Heard()
    logging.getLogger().addHandler(heard)
    done = 0
    for h in plan["hist"]:
        if h[0] == "set":
            o = outcome(lambda: st.set(h[1], h[2]))
            w.count("set" if o[0] == "ok" else "set_refused")
            continue
        if h[0] == "broken":
            w.arm(h[1], h[2])
            outcome(st.run)
            w.disarm()
            continue
        asked = [float(v) for v in st.obj.getDefectSizes()]
        del heard.msgs[:]
        state = get_rng()
        o = outcome(st.run)
        if o[0] != "ok":
            w.count("run_refused")
            if kind == "sobol" and answerable(st, ref, asked, state, spec["N"]):
                res.violate("sobol-refused", "run() on the sizes %s raises %s although the indices of every size whose probability varies can be computed" % (asked, o[:3]))
                return
            continue
        done += 1
        after = get_rng()
        (check_sobol if kind == "sobol" else check_pli)(plan, st, ref, res, asked, state, heard.msgs, w)
        set_rng(after)
        if any(c not in ("sobol-raw-inputs", "sobol-first-variance") for c, d in res.viol):
            return
    if done:
        res.keys.append(specdesc(spec) + h8(plan["hist"]))
    res.absorb(w)


# -------------------------------------------------------------------- Sobol
def answerable(st, ref, asked, state, n):
    """Every size has indices, or a probability which is constant to the last digit."""
    obj = st.obj
    alg = ALGO[obj.getSensitivityMethod()]
    for variant in variants(ref):
        set_rng(state)
        D_, Y = ref.sobol_outputs(st, asked, n, variant, obj.getSimulationSize())
        var = Y[:n].var(axis=0)
        # a constant to the last digit, in all the design
        if not all(v > 1e-9 or np.ptp(y) == 0.0 for v, y in zip(var, Y.T)) or not (var > 1e-9).any():
            return False
        live = np.flatnonzero(var > 1e-9)
        if any(indices(alg(D_, ot.Sample(Y[:, [j]]), n), 0) is None for j in live):
            return False
    return True


def check_sobol(plan, st, ref, res, asked, state, msgs, w):
    spec = st.spec
    n = spec["N"]
    obj = st.obj
    kept = [float(v) for v in obj.getDefectSizes()]
    meth = obj.getSensitivityMethod()
    sa = obj.getSensitivityResult()
    nk = len(kept)
    D = spec["data"]["dim"] - 1
    res.states.append("sobol %s %s %d/%d" % (st.base.kind, meth, nk, len(asked)))
    if not set(kept) <= set(asked) or kept != sorted(kept):
        res.violate("sobol-sizes", "sizes %s reported for a run on %s" % (kept, asked))
        return
    if type(sa).__name__ != ALGO[meth].__name__:
        res.violate("sobol-method", "%s for %s" % (type(sa).__name__, meth))
        return
    got = []
    for i in range(nk):
        try:
            got.append([list(sa.getFirstOrderIndices(i)), list(sa.getTotalOrderIndices(i))])
        except Exception:
            # refused; it must be a size where the output is constant up to rounding
            got.append([[None] * D, [None] * D])
            w.count("sobol_refused")
    over = outcome(lambda: sa.getFirstOrderIndices(nk))
    if over[0] == "ok":
        res.violate("sobol-count", "more outputs than the %d reported sizes" % nk)
        return
    for g in got:
        if len(g[0]) != D or len(g[1]) != D:
            res.violate("sobol-count", "%d and %d indices for %d inputs" % (len(g[0]), len(g[1]), D))
            return
    if nk < len(asked):
        w.count("sobol_dropped", len(asked) - nk)
        if not any("variances are null" in m or "efect" in m for m in msgs):
            res.violate("sobol-silent", "sizes %s dropped without a warning" % sorted(set(asked) - set(kept)))
            return
    # (1) the reference model in the same random stream
    found = None
    flat = 0
    simsize = obj.getSimulationSize()
    for variant in variants(ref):
        set_rng(state)
        D_, Y = ref.sobol_outputs(st, asked, n, variant, simsize)
        var = Y[:n].var(axis=0)
        # outputs which are constant up to rounding have no indices worth comparing
        noise = [asked[j] for j in range(len(asked)) if var[j] < 1e-14]
        live = [j for j in range(len(asked)) if var[j] >= 1e-14]
        sizes = [asked[j] for j in live]
        if sorted(set(kept) - set(noise)) != sizes:
            continue
        at = [kept.index(a) for a in sizes]
        ok = True
        if live:
            alg = ALGO[meth](D_, ot.Sample(Y[:, live]), n)
            tol = 1e-5
            mine = [indices(alg, i) for i in range(len(live))]
            ok = True
            for i, k in enumerate(at):
                if mine[i] is None or got[k][0][0] is None:
                    ok = ok and mine[i] is None and got[k][0][0] is None
                elif var[live[i]] > 1e-9:
                    ok = ok and close_to(got[k][0], mine[i][0], tol) and close_to(got[k][1], mine[i][1], tol)
            if not set(noise) & set(kept) and var[live].max() > 1e-9 and None not in mine:
                ok = ok and close_to(sa.getAggregatedFirstOrderIndices(), alg.getAggregatedFirstOrderIndices(), tol) \
                    and close_to(sa.getAggregatedTotalOrderIndices(), alg.getAggregatedTotalOrderIndices(), tol)
                if ok:
                    alg.setUseAsymptoticDistribution(True)
                    for m in ("getFirstOrderIndicesInterval", "getTotalOrderIndicesInterval"):
                        a, b = getattr(sa, m)(), getattr(alg, m)()
                        ok = ok and close_to(a.getLowerBound(), b.getLowerBound(), 1e-4) and close_to(a.getUpperBound(), b.getUpperBound(), 1e-4)
        if ok and not FORCE:
            found = variant
            flat = len(noise)
            break
    if found is not None:
        w.count("sobol_exact")
        w.count("sobol_flat", flat)
    # (2) each size alone, from the same generator state
    same = True
    if nk and not (found is not None and found[1]) and (found is None or plan["drawn"]):
        j = plan["seed"] % nk
        set_rng(state)
        one = otpod.SobolIndices(st.base.obj, n)
        one.setSimulationSize(simsize)
        one.setSensitivityMethod(meth)
        if st.given is not None:
            one.setDistribution(st.given)
        one.setDefectSizes([kept[j]])
        o = outcome(one.run)
        s1 = one.getSensitivityResult() if o[0] == "ok" else None
        same = kept[j] in noise or got[j][0][0] is None or s1 is not None and (close_to(got[j][0], s1.getFirstOrderIndices(0), 1e-4) and close_to(got[j][1], s1.getTotalOrderIndices(0), 1e-4))
        if same and s1 is not None:
            w.count("sobol_alone")
    if found is None or not same:
        # (3) the random stream is used otherwise: compare over many streams
        found, d = two_sample_sobol(st, ref, asked, n, meth, simsize, plan["seed"])
        w.count("sobol_two_sample")
        if found is None:
            res.violate("sobol-values", "sizes %s (asked %s) %s: %s" % (kept, asked, meth, d))
            return
    if found[0]:
        res.violate("sobol-raw-inputs", "the Sobol indices of a kriging POD are those of its metamodel at inputs which were not normalized (PODaggrKriging)")
    if found[1]:
        res.violate("sobol-first-variance", "the Sobol indices of a kriging POD use the kriging variance of the first size for all sizes (PODaggrKriging)")
    # drawings
    lab = ["L%d" % i for i in range(D)]
    for m, which in (("drawFirstOrderIndices", 0), ("drawTotalOrderIndices", 1)):
        try:
            fig, ax = getattr(obj, m)(lab)
        except Exception as e:  # noqa
            res.violate("sobol-draw", "%s: %r" % (m, e))
            return
        shown = [j for j in range(nk) if got[j][0][0] is not None]
        lines = [l for l in ax.get_lines() if len(l.get_xdata()) == len(shown) and str(l.get_label()) in lab]
        ok = len(lines) == D
        for l in lines:
            i = lab.index(str(l.get_label()))
            if not close_to(np.ravel(l.get_xdata(orig=True)), [kept[j] for j in shown], 1e-9) or not close_to(np.ravel(l.get_ydata(orig=True)), [got[j][which][i] for j in shown], 1e-9):
                ok = False
        txt = ax.get_title() + ax.get_xlabel()
        close(fig)
        if not ok:
            res.violate("sobol-draw", "%s does not show the indices of the sizes %s" % (m, kept))
            return
        if plan["drawn"] and meth not in txt:
            res.violate("sobol-draw", "%s is titled %r for %s" % (m, txt, meth))
            return


def indices(alg, i):
    try:
        return [list(alg.getFirstOrderIndices(i)), list(alg.getTotalOrderIndices(i))]
    except Exception:
        return None


def variants(ref):
    """The right model, then those of the known findings."""
    return [(False, False)] + ([(True, True), (True, False), (False, True)] if ref.kind == "krig" else [])


def two_sample_sobol(st, ref, asked, n, meth, simsize, seed):
    R = 12

    def many(fn):
        out = []
        for k in range(R):
            out.append(fn(k))
        return np.array(out)

    def code(k):
        seed_rng(seed + 1000 + k)
        s = otpod.SobolIndices(st.base.obj, n)
        s.setSimulationSize(simsize)
        s.setSensitivityMethod(meth)
        if st.given is not None:
            s.setDistribution(st.given)
        s.setDefectSizes(asked)
        o = outcome(s.run)
        got = [float(v) for v in s.getDefectSizes()]
        r = np.full((len(asked), 2, st.spec["data"]["dim"] - 1), np.nan)
        if o[0] == "ok":
            a = s.getSensitivityResult()
            for i, v in enumerate(got):
                j = asked.index(v)
                try:
                    r[j, 0], r[j, 1] = a.getFirstOrderIndices(i), a.getTotalOrderIndices(i)
                except Exception:
                    pass
        return r

    def model(variant):
        def f(k):
            seed_rng(seed + 5000 + k)
            D_, Y = ref.sobol_outputs(st, asked, n, variant, simsize)
            r = np.full((len(asked), 2, st.spec["data"]["dim"] - 1), np.nan)
            for j in range(len(asked)):
                if Y[:n, j].var() > 1e-9:
                    a = ALGO[meth](D_, ot.Sample(Y[:, [j]]), n)
                    r[j, 0], r[j, 1] = indices(a, 0) or (np.nan, np.nan)
            return r
        return f
    A = many(code)
    bad = None
    for variant in variants(ref):
        B = many(model(variant))
        d = distinct_samples(A, B)
        if d is None:
            for j in range(len(asked)):
                if np.isfinite(B[:, j]).all() and not np.isfinite(A[:, j]).any():
                    d = "no index of size %r in any of %d streams" % (asked[j], R)
        if d is None:
            return variant, None
        bad = bad or d
    return None, bad


def distinct_samples(A, B):
    """None, or where two samples of replicates (axis 0) surely differ."""
    for ix in np.ndindex(A.shape[1:]):
        a, b = A[(slice(None),) + ix], B[(slice(None),) + ix]
        a, b = a[np.isfinite(a)], b[np.isfinite(b)]
        if len(a) < 8 or len(b) < 8:
            continue
        lo, hi = np.minimum(a.min(), b.min()), np.maximum(a.max(), b.max())
        # complete separation with a gap: probability 2/C(16,8) at worst for equal laws, and far apart in spread
        sep = a.min() > b.max() or b.min() > a.max()
        s = math.sqrt(a.var(ddof=1) / len(a) + b.var(ddof=1) / len(b)) + 1e-9
        if sep and abs(a.mean() - b.mean()) > 8 * s and abs(a.mean() - b.mean()) > 0.02:
            return "index %s: %.4g +- %.2g instead of %.4g +- %.2g" % (ix, a.mean(), a.std(), b.mean(), b.std())
    return None


# ---------------------------------------------------------------------- PLI
def density_ratio(kind, d, delta, x):
    """Perturbed over original density of one marginal; closed forms."""
    name = d.getImplementation().getClassName()
    if name == "Normal":
        m, s = d.getMean()[0], d.getStandardDeviation()[0]
        if kind == "plim":
            return np.exp(((x - m) ** 2 - (x - delta) ** 2) / (2 * s * s))
        v = delta
        return np.sqrt(s * s / v) * np.exp((x - m) ** 2 / (2 * s * s) - (x - m) ** 2 / (2 * v))
    a, b = d.getRange().getLowerBound()[0], d.getRange().getUpperBound()[0]
    c, h = 0.5 * (a + b), 0.5 * (b - a)
    t = (delta - c) / h                     # wanted mean of exp(l u) on [-1, 1]

    def mean(l):
        return (1.0 / math.tanh(l) - 1.0 / l) if abs(l) > 1e-5 else l / 3.0
    lo, hi = -200.0, 200.0
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if mean(mid) < t:
            lo = mid
        else:
            hi = mid
    l = 0.5 * (lo + hi)
    u = (x - c) / h
    nrm = math.sinh(l) / l if abs(l) > 1e-8 else 1.0
    return np.exp(l * u) / nrm


def check_pli(plan, st, ref, res, asked, state, msgs, w):
    spec, obj, kind = st.spec, st.obj, st.kind
    sizes = [float(v) for v in obj.getDefectSizes()]
    if sizes != asked:
        res.violate("pli-sizes", "sizes %s became %s" % (asked, sizes))
        return
    D = spec["data"]["dim"] - 1
    I = np.asarray(obj.getIndices(), float)
    dl = np.array(spec["delta"], float)
    dl = dl.reshape(len(dl), -1)
    if I.shape != (len(dl), D, len(sizes)):
        res.violate("pli-shape", "indices %s for %d deltas, %d inputs, %d sizes" % (I.shape, len(dl), D, len(sizes)))
        return
    dist = st.given if st.given is not None else ot.JointDistribution([st.base.obj.getDistribution().getMarginal(i) for i in range(1, D + 1)])
    ms = [dist.getMarginal(i) for i in range(D)]
    dl = dl * np.ones((1, D))
    if spec["scaled"]:
        mean, std = np.array(dist.getMean()), np.array(dist.getStandardDeviation())
        dl = dl * std + mean if kind == "plim" else (dl * mean + std) ** 2
    n = obj.getSamplingSize()
    # the sample is in the history of the function of each size
    set_rng(state)
    rv = ot.RandomVector(dist)
    dropped = []
    pdfs = None
    exact = True
    for j, a in enumerate(sizes):
        x = np.array([list(rv.getRealization()) for _ in range(n)])
        fail = ref.signal(a, x) > ref.det
        pf = float(fail.mean())
        try:
            p = obj.getPLIObject(j)
        except Exception:
            p = None
        nan = np.isnan(I[:, :, j])
        if nan.any() != nan.all():
            res.violate("pli-nan", "size %r: only some indices are not computed" % a)
            return
        if bool(nan.all()) != (p is None):
            res.violate("pli-nan", "size %r: indices %s, PLI object %s" % (a, I[:, :, j].tolist(), "given" if p is not None else "refused"))
            return
        if p is None:
            dropped.append(a)
            dr = outcome(lambda: close(obj.drawIndices(j, None)[0]))
            if dr[0] == "ok":
                res.violate("pli-nan", "size %r: not computed, yet drawn" % a)
                return
        want_none = not (1e-3 < pf < 0.999)
        good = True
        if want_none != (p is None):
            good = False
        elif p is not None:
            G = np.asarray(p.getIndices(), float)
            if not close_to(G, I[:, :, j], 1e-12):
                res.violate("pli-object", "size %r: object %s, indices %s" % (a, G.tolist(), I[:, :, j].tolist()))
                return
            if not close_to(p.getDeltaSample(), dl, 1e-9):
                res.violate("pli-delta", "size %r: deltas %s instead of %s" % (a, np.asarray(p.getDeltaSample()).tolist(), dl.tolist()))
                return
            P = np.asarray(p.getPerturbedProbabilityEstimate(), float)
            want = np.zeros((len(dl), D))
            var = np.zeros((len(dl), D))
            for i in range(len(dl)):
                for m in range(D):
                    wt = np.where(fail, density_ratio(kind, ms[m], dl[i, m], x[:, m]), 0.0)
                    want[i, m] = wt.mean()
                    var[i, m] = (wt ** 2).mean() - wt.mean() ** 2
            S = np.where(P < ind_pf(P, G, pf), 0, 0) if False else np.where(want < pf, (want - pf) / np.where(want > 0, want, 1), (want - pf) / pf)
            if not close_to(P, want, 1e-4) or not close_to(G, S, 2e-3):
                good = False
            elif True:
                for lv in (0.95, 0.5):
                    ci = p.computeConfidenceInterval(lv)
                    z = float(ot.Normal().computeQuantile(0.5 + lv / 2)[0])
                    for m in range(D):
                        for i in range(len(dl)):
                            sd = pli_sd(pf, want[i, m], var[i, m], n)
                            c = np.asarray(ci[m][i], float)
                            if not close_to(c, [G[i, m] - z * sd, G[i, m] + z * sd], 5e-3):
                                res.violate("pli-interval", "size %r delta %d input %d level %s: interval %s instead of %s" % (
                                    a, i, m, lv, c.tolist(), [G[i, m] - z * sd, G[i, m] + z * sd]))
                                return
        if not good:
            exact = False
    if dropped and not any("estimated only" in m or "efect" in m for m in msgs):
        res.violate("pli-silent", "sizes %s not computed without a warning" % dropped)
        return
    if dropped:
        w.count("pli_dropped", len(dropped))
    res.states.append("%s %s %d/%d %d%s" % (kind, st.base.kind, len(sizes) - len(dropped), len(sizes), len(dl), " 2d" if isinstance(spec["delta"][0], list) else ""))
    if exact and not FORCE:
        w.count("pli_exact")
    else:
        w.count("pli_two_sample")
        d = two_sample_pli(st, ref, sizes, dist, ms, dl, n, plan["seed"])
        if d:
            res.violate("pli-values", "sizes %s: %s" % (sizes, d))
            return
    # slices
    r = random.Random(plan["seed"])
    for _ in range(4):
        i, m, j = r.randrange(len(dl)), r.randrange(D), r.randrange(len(sizes))
        for args, want in (((i, m, j), I[i, m, j]), ((None, m, j), I[:, m, j]), ((i, None, j), I[i, :, j]), ((i, m, None), I[i, m, :]),
                           ((None, None, j), I[:, :, j]), ((None, m, None), I[:, m, :]), ((i, None, None), I[i, :, :])):
            g = np.asarray(obj.getIndices(*args), float)
            if not close_to(g, want, 0):
                res.violate("pli-slice", "getIndices%s" % (args,))
                return
    # drawings
    kept = [a for a in sizes if a not in dropped]
    for m in range(D):
        if len(kept) < 2 or len(dl) < 2 or not plan["drawn"]:
            break
        try:
            fig, ax = obj.drawContourIndices(m, "lab")
        except Exception as e:  # noqa
            res.violate("pli-draw", "drawContourIndices(%d): %r" % (m, e))
            return
        im = ax.images[0]
        Z = np.asarray(im.get_array(), float)
        ext = list(im.get_extent())
        txt = ax.get_title()
        close(fig)
        if not close_to(Z, I[:, m, [j for j, a in enumerate(sizes) if a in kept]], 1e-12):
            res.violate("pli-draw", "contour of input %d does not show the indices of the sizes %s" % (m, kept))
            return
        if not close_to(ext[:2], [min(kept), max(kept)], 1e-9) or "lab" not in txt:
            res.violate("pli-draw", "contour of input %d: extent %s title %r" % (m, ext, txt))
            return
    if kept and not isinstance(spec["delta"][0], list):
        j = sizes.index(kept[plan["seed"] % len(kept)])
        lab = ["A%d" % i for i in range(D)]
        fig, ax = obj.drawIndices(j, None, lab, False)
        ls = {str(l.get_label()): np.ravel(l.get_ydata(orig=True)) for l in ax.get_lines()}
        txt = ax.get_title()
        close(fig)
        for m in range(D):
            if lab[m] not in ls or not close_to(sorted(ls[lab[m]].tolist()), sorted(I[:, m, j].tolist()), 1e-9):
                res.violate("pli-draw", "drawIndices(%d) does not show the indices of input %d" % (j, m))
                return
        if "%.3f" % sizes[j] not in txt:
            res.violate("pli-draw", "drawIndices(%d) of size %r is titled %r" % (j, sizes[j], txt))
            return


def ind_pf(P, G, pf):
    return pf


def pli_sd(pf, pd, var, n):
    c = np.array([[pf * (1 - pf), pd * (1 - pf)], [pd * (1 - pf), var]])
    d = np.array([-1.0 / pd, pf / pd ** 2]) if pd < pf else np.array([-pd / pf ** 2, 1.0 / pf])
    v = float(d @ c @ d)
    return math.sqrt(max(v, 0.0) / n)


def two_sample_pli(st, ref, sizes, dist, ms, dl, n, seed):
    R, D = 12, len(ms)
    cls = otpod.PLIMean if st.kind == "plim" else otpod.PLIVariance

    def code(k):
        seed_rng(seed + 1000 + k)
        s = cls(st.base.obj, dl.tolist(), False)
        if st.given is not None:
            s.setDistribution(st.given)
        s.setSamplingSize(n)
        s.setDefectSizes(sizes)
        s.run()
        r = np.full((len(sizes), 2, len(dl), D), np.nan)
        for j in range(len(sizes)):
            try:
                p = s.getPLIObject(j)
            except Exception:
                continue
            r[j, 0], r[j, 1] = p.getPerturbedProbabilityEstimate(), np.asarray(s.getIndices())[:, :, j]
        return r

    def model(k):
        seed_rng(seed + 5000 + k)
        r = np.full((len(sizes), 2, len(dl), D), np.nan)
        for j, a in enumerate(sizes):
            x = np.array(dist.getSample(n))
            fail = ref.signal(a, x) > ref.det
            pf = fail.mean()
            if not 1e-3 < pf < 0.999:
                continue
            for i in range(len(dl)):
                for m in range(D):
                    p = np.where(fail, density_ratio(st.kind, ms[m], dl[i, m], x[:, m]), 0.0).mean()
                    r[j, 0, i, m] = p
                    r[j, 1, i, m] = (p - pf) / (p if p < pf else pf)
        return r
    A, B = np.array([code(k) for k in range(R)]), np.array([model(k) for k in range(R)])
    fa, fb = np.isfinite(A[:, :, 0, 0, 0]).mean(axis=0), np.isfinite(B[:, :, 0, 0, 0]).mean(axis=0)
    for j in range(len(sizes)):
        if (fa[j] == 0 and fb[j] == 1) or (fa[j] == 1 and fb[j] == 0):
            return "size %r: indices computed in %d%% of the streams instead of %d%%" % (sizes[j], 100 * fa[j], 100 * fb[j])
    return distinct_samples(A, B)
