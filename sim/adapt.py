"""Adaptive enrichment: workload and design oracle shared by C05 and C06."""
from .common import *  # noqa


def gen_adaptive(r, i):
    k = KINDS_ADAPT[i % 2]
    for _ in range(100):
        s = gen_spec(r, k)
        if k == "hm":
            X, Y = make_data(s["data"])
            hit = Y[:, 0] > (0.5 if s["data"]["binary"] else detection(s["data"]))
            if not (3 <= hit.sum() <= len(hit) - 3):
                continue
            if r.random() < 0.4:
                band = r.choice([[0.7, 0.3], [0.5, 0.5], [0.99, 1.0], [0.0, 0.001], [0.499, 0.501], [0.0, 1.0]])
                s["conf"] = [c for c in s["conf"] if c[0] not in ("PMin", "PMax")] + [["PMin", band[0]], ["PMax", band[1]]]
        else:
            if r.random() < 0.3:
                s["data"]["shape"] = "exp"
            if r.random() < 0.3:
                for c in s["conf"]:
                    if c[0] == "CandidateSize":
                        c[1] = s["n"] + 1
            if r.random() < 0.25:
                for c in s["conf"]:
                    if c[0] == "DefectSizes":
                        c[1] = c[1][:2]
        break
    t = r.random()
    if t < 0.3:
        s["conf"].append(["GraphActive", r.choice([[True], [True, 0.5, 0.9], [True, 0.999999, 0.5], [True, None, 0.8]])])
    elif t < 0.45:
        s["conf"].append(["GraphActive", [True, None, 0.9, r.choice(["$DIR/a", "$DIR/a/b", "$DIR"])]])
    return s


def resolve(spec, scratch):
    """Put the graph directory below the scratch directory of this run."""
    s = json.loads(json.dumps(spec))
    for c in s["conf"]:
        if c[0] == "GraphActive" and len(c[1]) > 3 and c[1][3]:
            c[1][3] = c[1][3].replace("$DIR", scratch)
    return s


def gen_rounds(r, s):
    out = []
    n = max(1, s["n"])
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        t = r.random()
        if t < 0.45:
            out.append(dict(fail=sorted(set(r.randrange(0, n + 2) for _ in range(r.choice([1, 1, 2])))), seed=r.randrange(10 ** 6)))
        elif t < 0.8:
            out.append(dict(at=r.choice([r.random(), r.random(), r.random(), 0.0, 0.999]), exc=r.choice(["KeyboardInterrupt", "MemoryError", "RuntimeError"]), seed=r.randrange(10 ** 6)))
        elif t < 0.9:
            out.append(dict(out=r.randrange(1, 20), seed=r.randrange(10 ** 6)))
        else:
            out.append(dict(seed=r.randrange(10 ** 6)))
    out.append(dict(seed=r.randrange(10 ** 6), last=True))
    return out


def close_to(a, b, tol):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


class Design(object):
    """Reference model of the design: initial rows, then answered calls."""

    def __init__(self, st, spec, res):
        self.st, self.spec, self.res = st, spec, res
        self.kind = spec["kind"]
        X, Y = make_data(spec["data"])
        keep = np.ones(len(X), bool)
        if spec["nt"] is not None:
            keep &= Y[:, 0] > spec["nt"]
        if spec["st"] is not None:
            keep &= Y[:, 0] < spec["st"]
        self.X0 = X[keep].tolist()
        y0 = Y[keep][:, 0]
        self.Y0 = self.conv(y0)
        self.prev = None
        self.tol = 1e-12
        self.where = ""

    def conv(self, y):
        if self.kind == "hm" and not self.spec["data"]["binary"]:
            return [1.0 if v > detection(self.spec["data"]) else 0.0 for v in y]
        return [float(v) for v in y]

    def look(self):
        o = self.st.obj
        return np.array(o.getInputDOE()).tolist(), np.array(o.getOutputDOE())[:, 0].tolist()

    def fail(self, cls, txt):
        self.res.violate("%s:%s" % (cls, self.kind), "%s: %s" % (self.where, txt))
        return False

    def check(self, where):
        self.where = where
        try:
            X, Y = self.look()
        except SimHang:
            raise
        except Exception as e:
            return self.fail("unpaired", "the design cannot be read: %s: %s" % (type(e).__name__, str(e)[:200]))
        n0 = len(self.X0)
        if len(X) != len(Y):
            return self.fail("unpaired", "input design has %d rows, output design %d" % (len(X), len(Y)))
        if len(X) < n0:
            return self.fail("initial", "design has %d rows, the initial one %d" % (len(X), n0))
        for i in range(n0):
            if X[i] != self.X0[i] or not close_to(Y[i], self.Y0[i], self.tol):
                return self.fail("initial", "row %d of the initial design became %s -> %s" % (i, X[i], Y[i]))
        if self.prev is not None:
            pX, pY = self.prev
            if len(pX) > len(X) or pX != X[:len(pX)] or any(not close_to(a, b, self.tol) for a, b in zip(pY, Y)):
                return self.fail("lost", "rows acquired earlier changed")
        calls = {}
        for x, y in self.st.model.calls:
            calls.setdefault(tuple(x), []).append(self.conv([y])[0])
        for i in range(n0, len(X)):
            ys = calls.get(tuple(X[i]))
            if ys is None:
                # candidates go through C++ doubles unchanged
                return self.fail("unasked", "row %d (%s) was never given to the model" % (i, X[i]))
            if not any(close_to(v, Y[i], self.tol) for v in ys):
                return self.fail("answer", "row %d (%s) reports %s, the model answered %s" % (i, X[i], Y[i], ys))
        self.prev = (X, Y)
        return True

    def completed(self, where, before, asked0, answered0):
        self.where = where
        X, Y = self.prev
        n = self.spec["n"]
        if len(X) != before + n:
            return self.fail("count", "completed run added %d points instead of %d" % (len(X) - before, n))
        rg = self.st.obj.getDistribution().getRange()
        lo, hi = list(rg.getLowerBound()), list(rg.getUpperBound())
        for x in X[before:]:
            for j, v in enumerate(x):
                w = 1e-9 * (hi[j] - lo[j])
                if v < lo[j] - w or v > hi[j] + w:
                    return self.fail("range", "added point %s outside [%s, %s]" % (x, lo, hi))
        if self.kind == "asig":
            add = [tuple(x) for x in X[len(self.X0):]]
            if len(set(add)) != len(add):
                return self.fail("distinct", "the same point was added twice: %s" % add)
            calls = self.st.model.calls[answered0:]
            if self.st.model.asked - asked0 != n:
                return self.fail("calls", "%d model calls for %d points" % (self.st.model.asked - asked0, n))
            if [tuple(c[0]) for c in calls] != [tuple(x) for x in X[before:]]:
                return self.fail("calls", "the points asked are not the points added")
            for c, x, y in zip(calls, X[before:], Y[before:]):
                if not close_to(c[1], y, self.tol):
                    return self.fail("answer", "point %s reports %s, the model answered %s" % (x, y, c[1]))
            return self.trained(X, Y)
        return True

    def trained(self, X, Y):
        """The metamodel of a completed run is the one of the reported design: same points up to scaling, (transformed) outputs."""
        kr = self.st.obj.getKrigingResult()
        X, Y = np.array(X), np.array(Y)
        kx, ky = np.array(kr.getInputSample()), np.array(kr.getOutputSample())[:, 0]
        if len(kx) != len(X):
            return self.fail("metamodel", "the metamodel is built on %d points, the design has %d" % (len(kx), len(X)))
        if self.spec["box"] is not False:
            shift = max(0.0, -min(self.Y0)) + 100 if min(self.Y0) < 0 else 0.0
            Y = np.array(ot.BoxCoxTransform([self.st.obj.getBoxCoxParameter()])(ot.Sample((Y + shift)[:, None])))[:, 0]
        sd, ksd = X.std(axis=0), kx.std(axis=0)
        for j in range(X.shape[1]):
            if sd[j] > 1e-9 * max(1.0, abs(X[:, j]).max()):
                if ksd[j] == 0 or np.abs((X[:, j] - X[:, j].mean()) / sd[j] - (kx[:, j] - kx[:, j].mean()) / ksd[j]).max() > 1e-6:
                    return self.fail("metamodel", "input %d of the metamodel's points is not that of the design" % j)
        d = np.abs(Y - ky)
        if d.max() > 1e-9 * max(np.abs(Y).max(), 1e-300):
            i = int(d.argmax())
            return self.fail("metamodel", "the metamodel is built on the output %r of point %d where the (transformed) design has %r" % (float(ky[i]), i, float(Y[i])))
        return True
