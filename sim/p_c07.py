"""C07: saving writes the complete file or raises."""
from .common import *  # noqa
from .adapt import gen_adaptive

LEVEL = "exploration"
RUNS = dict(quick=200, thorough=8000)
RULE = ("one run = one random study and several file-producing calls, each with one disk fault (refused open, full disk or I/O error after a given byte, "
        "short writes, error at close, file size limit, missing directory, directory in the way, death of the process in the middle, interrupt) over "
        "empty, longer or truncated earlier content; oracle: the files of a faultless call made in a twin process, which themselves must decode and show "
        "the returned figure; non-trivial when the fault hit; distinct by call, fault kind and byte position")
STATES = "distinct (kind, call, fault kind, tenth of the file reached)"
SHRINK = [["jobs"], ["spec", "conf"]]
FAULTS = ["OPEN", "ENOSPC", "ENOSPC", "EIO", "SHORT", "CLOSE", "FSIZE", "NODIR", "ISDIR", "CRASH", "INT", None]


def calls(spec, r):
    k = spec["kind"]
    out = []
    if k in POD_KINDS:
        out += [["drawPOD", []], ["drawPOD", [None, r.choice([0.95, 0.8])]], ["drawPOD", [r.choice([0.3, 0.5]), None]]]
        if k != "hm" and spec["box"] is True:
            out.append(["drawBoxCoxLikelihood", []])
        if k == "qr":
            out += [["drawLinearModel", [r.choice([0.5, 0.9])]]] * 2
        if k in ("chaos", "chaos1", "krig", "asig"):
            out += [["drawValidationGraph", []]] * 2
        if k == "chaos1":
            out += [["drawPolynomialChaosModel", []]] * 2
        if k in KINDS_ADAPT:
            out += [["*graphdir", []]] * 3
    elif k == "ana":
        for m in ("drawLinearModel", "drawResiduals", "drawResidualsQQplot", "drawResidualsDistribution"):
            out.append([m, []])
            if spec["nt"] is not None:
                out.append([m, ["censored"]])
        if spec["box"] is True:
            out.append(["drawBoxCoxLikelihood", []])
        out += [["saveResults", []]] * 3
    elif k == "sobol":
        out = [["drawAggregatedIndices", []], ["drawFirstOrderIndices", []], ["drawTotalOrderIndices", []]]
    elif k in ("plim", "pliv"):
        out = [["drawContourIndices", [0]], ["@drawMarginal1DPDF", [0, 0]], ["@drawIndices", []]]
        if not isinstance(spec["delta"][0], list):
            out += [["drawIndices", [0]], ["drawIndices", [1, None, None, False]]]
    elif k == "summary":
        p, c = r.choice([0.9, 0.5]), r.choice([0.95, 0.8])
        out = [["saveResults", [p, c]], ["saveResults", [p, c]], ["*drawGraphs", [p, c]]]
    return out


def gen(r, i, tier):
    k = kind_at(i, KINDS_ALL + ["ana", "summary"])
    s = gen_adaptive(r, KINDS_ADAPT.index(k)) if k in KINDS_ADAPT else gen_spec(r, k)
    s["conf"] = [c for c in s["conf"] if c[0] != "GraphActive"]
    if k in KINDS_ADAPT:
        s["n"] = min(max(1, s["n"]), 6)
    cs = calls(s, r)
    jobs = []
    for _ in range(r.choice([2, 3]) if k != "summary" else 2):
        c = r.choice(cs)
        txt = c[0] == "saveResults"
        rel = r.random() < 0.25
        ext = r.choice(["txt", "csv", "t s v", ""] if txt else ["png", "png", "pdf", ""])
        stem = r.choice(["out", "out.v2", "my out", "out_1"])
        if ext == "" and "." in stem:
            stem = "out"
        jobs.append(dict(call=c[0], args=c[1], ext=ext, stem=stem, rel=rel, fault=r.choice(FAULTS), at=r.choice([0.0, r.random(), r.random(), r.random(), 0.999]),
                         partial=r.random() < 0.5, prior=r.choice([None, None, "long", "short", "half"]), k=r.choice([1, 2, 3, 4, 5])))
    return dict(spec=s, seed=r.randrange(10 ** 6), jobs=jobs)


def tree(d):
    out = {}
    for b, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(b, f)
            out[os.path.relpath(p, d)] = REAL_OPEN(p, "rb").read()
    return out


def wipe(d):
    for b, ds, fs in os.walk(d, topdown=False):
        for f in fs:
            os.remove(os.path.join(b, f))
        for x in ds:
            os.rmdir(os.path.join(b, x))


def small(t):
    return {k: [len(v), hashlib.sha256(v).hexdigest()[:12]] for k, v in t.items()}


class Job(object):
    def __init__(self, st, spec, job, scratch, n):
        self.st, self.spec, self.job = st, spec, job
        self.dir = os.path.join(scratch, "d%d" % n)
        os.makedirs(self.dir)
        self.name = job["stem"] + ("." + job["ext"] if job["ext"] else "")
        self.path = os.path.join(self.dir, self.name)
        self.multi = job["call"].startswith("*")

    def do(self, path=None):
        """The saving call; the figure or None."""
        j, st = self.job, self.st
        c = j["call"]
        path = path or self.path
        if j["rel"]:
            os.chdir(os.path.dirname(path) if os.path.isdir(os.path.dirname(path)) else self.dir)
            path = os.path.relpath(path)
        try:
            if c == "*graphdir":
                spec = json.loads(json.dumps(self.spec))
                spec["conf"].append(["GraphActive", [True, None, 0.9, path]])
                seed_rng(j["seed"])
                s2 = Study(spec)
                s2.build()
                s2.run()
                return None
            if c == "*drawGraphs":
                if not os.path.isdir(path):
                    os.makedirs(path)
                return st.obj.drawGraphs(path, "png" if not j["ext"] else j["ext"], *j["args"])
            if c == "saveResults":
                return st.obj.saveResults(path, *j["args"])
            o = st.obj
            if c.startswith("@"):
                o = o.getPLIObject(0)
                c = c[1:]
            return getattr(o, c)(*j["args"], name=path)[0]
        finally:
            if j["rel"]:
                os.chdir("/")


def decodes(name, b):
    """Whether the picture is complete by itself."""
    from PIL import Image
    if b[:4] == b"\x89PNG":
        try:
            im = Image.open(io.BytesIO(b))
            im.load()
            return b[-8:-4] == b"IEND"
        except Exception:
            return False
    if b[:4] == b"%PDF":
        return b.rstrip().endswith(b"%%EOF")
    return False


def pixels(b):
    from PIL import Image
    return np.asarray(Image.open(io.BytesIO(b)).convert("RGBA"))


def execute(plan, scratch, res):
    w = enter(scratch)
    spec = plan["spec"]
    kind = spec["kind"]
    seed_rng(plan["seed"])
    st = Study(spec)
    o = outcome(lambda: (st.build(), st.run()))
    if o[0] != "ok":
        res.skipped = "study refused"
        return
    plt.close("all")
    hit = 0
    res.evals = 0
    for n, job in enumerate(plan["jobs"]):
        job = dict(job, seed=plan["seed"] + n)
        J = Job(st, spec, job, scratch, n)
        what = "%s.%s%s -> %s" % (kind, job["call"], job["args"], J.name)

        def ref():
            fig = J.do()
            t = tree(J.dir)
            bad = None
            for f, b in t.items():
                if job["call"] != "saveResults" and not decodes(f, b):
                    bad = "%s (%d bytes) is no complete picture" % (f, len(b))
            if not J.multi:
                want = J.name if job["ext"] or job["call"] == "saveResults" else J.name + ".png"
                if sorted(t) != [want]:
                    bad = "files %s instead of %s" % (sorted(t), want)
                elif fig is not None and t[want][:4] == b"\x89PNG":
                    buf = io.BytesIO()
                    fig.savefig(buf, format="png", bbox_inches="tight", transparent=True)
                    a, b = pixels(t[want]), pixels(buf.getvalue())
                    if a.shape != b.shape or (a != b).any():
                        bad = "the file does not show the figure returned"
                elif job["call"] == "saveResults":
                    bad = text_complete(st, spec, t[want].decode(), job["args"])
            wipe(J.dir)
            return t, bad

        def ref_or_refusal():
            try:
                return ref()
            except SimHang:
                raise
            except Exception as e:
                wipe(J.dir)
                return None, "%s: %s" % (type(e).__name__, str(e)[:200])
        T, bad = twin(ref_or_refusal)
        if T is None:
            res.count("call_refused")
            continue
        if bad:
            res.violate("file:" + kind, "%s: %s" % (what, bad))
            return
        res.evals += 1
        total = sum(len(b) for b in T.values())
        f = job["fault"]
        main = J.path
        # what was there before
        if job["prior"] and not J.multi:
            ref0 = list(T.values())[0]
            pb = {"long": b"#" * (len(ref0) + 5000), "short": b"old", "half": ref0[:len(ref0) // 2]}[job["prior"]]
            real = os.path.join(J.dir, list(T)[0])
            REAL_OPEN(real, "wb").write(pb)
            w.count("prior_content")
        logs0 = len(w.log.rows)
        fired = True
        crashed = False
        after = int(job["at"] * total)
        if f in ("OPEN", "ENOSPC", "EIO", "SHORT", "CLOSE"):
            w.fs.set(dict(kind=f, after=after, partial=job["partial"]))
            o = outcome(J.do)
            fired = w.fs.fired > 0
            w.fs.clear()
        elif f == "CRASH":
            def die():
                w.fs.set(dict(kind="CRASH", after=after))
                J.do()
                return True
            try:
                crashed = not twin(die)
            except HarnessError as e:
                if "without an answer" not in str(e):
                    raise
                crashed = True
            o = ["exc", "crash"]
            fired = crashed
            if crashed:
                w.count("fault:fs:CRASH")
        elif f == "FSIZE":
            big = max(len(b) for b in T.values())
            lim = int(job["at"] * big)
            old = resource.getrlimit(resource.RLIMIT_FSIZE)
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, old[1]))
            try:
                o = outcome(J.do)
            finally:
                resource.setrlimit(resource.RLIMIT_FSIZE, old)
            w.count("fault:fs:FSIZE")
        elif f == "NODIR" and not J.multi:
            p = os.path.join(J.dir, "missing", J.name)
            o = outcome(lambda: J.do(p))
            w.count("fault:fs:NODIR")
            if o[0] == "ok" and sorted(tree(J.dir)) != sorted([os.path.join("missing", list(T)[0])] + ([list(T)[0]] if job["prior"] else [])):
                res.violate("silent:" + kind, "%s in a missing directory returned without the file" % what)
                return
            o = ["exc", "nodir"]
        elif f == "ISDIR" and not J.multi:
            p = os.path.join(J.dir, "way")
            os.makedirs(os.path.join(p, list(T)[0]))
            o = outcome(lambda: J.do(os.path.join(p, J.name)))
            w.count("fault:fs:ISDIR")
            if o[0] == "ok":
                res.violate("silent:" + kind, "%s onto a directory returned" % what)
                return
            wipe(p)
            os.rmdir(p)
        elif f == "INT":
            w.arm(job["k"], "KeyboardInterrupt")
            o = outcome(J.do)
            fired = w.fired is not None
            w.disarm()
            w.fired = None
        else:
            o = outcome(J.do)
            fired = False
        if o[0] == "ok":
            t = tree(J.dir)
            if t != T:
                wrong = sorted(k for k in T if t.get(k) != T[k])
                warned = len(w.log.rows) - logs0
                # the summary reports a method whose figures cannot be computed, or drawn, as a warning
                if f == "INT" and kind == "summary" and warned:
                    res.count("method_given_up")
                elif not (job["call"] == "*drawGraphs" and warned >= len(wrong) and set(t) <= set(T)):
                    res.violate("silent:" + kind, "%s with %s at byte %d returned, the files are %s instead of %s" % (what, f, after, small(t), small(T)))
                    return
        elif not fired and f is not None:
            # a fault which did not fire must not matter
            res.violate("raise:" + kind, "%s raises without a fault: %s" % (what, o))
            return
        elif f is None:
            res.violate("raise:" + kind, "%s over %s content raises: %s" % (what, job["prior"], o))
            return
        plt.close("all")
        # once the disk works
        o = outcome(J.do)
        plt.close("all")
        t = tree(J.dir)
        t = {k: v for k, v in t.items() if k in T}
        if o[0] != "ok" or t != T:
            res.violate("retry:" + kind, "%s repeated after %s at byte %d (prior %s): %s, files %s instead of %s" % (what, f, after, job["prior"], o, small(t), small(T)))
            return
        if fired and f is not None:
            hit += 1
            res.states.append("%s %s %s %d" % (kind, job["call"], f, int(10 * job["at"])))
            res.keys.append("%s %s %s %s %d %s" % (kind, job["call"], f, job["prior"], after, h8(spec)))
        res.count("jobs")
        wipe(J.dir)
    if not hit:
        res.keys.append("nofault" + h8(plan))
    if not res.evals:
        res.evals = 1
    res.absorb(w)


def text_complete(st, spec, txt, args):
    """Every value of the report is in the file."""
    rep = st.obj.getResults(*args) if spec["kind"] == "summary" else st.obj.getResults()
    if rep is None:
        return None
    import re
    num = lambda s: re.findall(r"-?\d+\.\d+(?:e[-+]?\d+)?", s)
    miss = [v for v in num(rep) if v not in set(num(txt))]
    if miss:
        return "values %s of the report are missing in the file" % miss[:4]
    return None
