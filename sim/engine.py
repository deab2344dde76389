"""Seeded search: many simulated runs in forked processes, minimisation,
replay files and evidence."""
import hashlib, importlib, json, os, pickle, random, resource, select, shutil, signal, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RUN_TIMEOUT = float(os.environ.get("SIM_RUN_TIMEOUT", "240"))


class Result(object):
    def __init__(self):
        self.viol = []        # [class, detail]
        self.stats = {}
        self.keys = []        # what makes the run non-trivial and distinct
        self.states = []      # distinct interleavings / crash points reached
        self.skipped = None
        self.evals = 1
        self.steps = 0
        self.simtime = 0.0

    def violate(self, cls, detail=""):
        self.viol.append([str(cls), str(detail)[:1500]])

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def absorb(self, world):
        for k, v in world.stats.items():
            self.count(k, v)
        self.steps += world.steps
        self.simtime += world.clock - world.sim_time0


def load(pid):
    return importlib.import_module("sim.p_" + pid.lower())


def execute_here(pid, plan, res=None):
    """Run the plan in this process (already forked)."""
    from . import core
    mod = load(pid)
    scratch = tempfile.mkdtemp(prefix="otpodsim_")
    res = res or Result()
    try:
        mod.execute(plan, scratch, res)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return res


def run_child(pid, plan, timeout=RUN_TIMEOUT):
    """-> ("ok", Result) | ("timeout", None) | ("error", text)"""
    r, w = os.pipe()
    pid_ = os.fork()
    if pid_ == 0:
        try:
            os.setpgid(0, 0)
            os.close(r)
            try:
                res = execute_here(pid, plan)
                out = pickle.dumps(("ok", res.__dict__), 4)
            except BaseException:
                import traceback
                out = pickle.dumps(("error", traceback.format_exc()[-6000:]), 4)
            off = 0
            while off < len(out):
                off += os.write(w, out[off:off + 65536])
        finally:
            os._exit(0)
    os.close(w)
    try:
        os.setpgid(pid_, pid_)
    except OSError:
        pass
    buf = []
    end = time.time() + timeout
    state = None
    while True:
        left = end - time.time()
        if left <= 0:
            state = "timeout"
            break
        rd, _, _ = select.select([r], [], [], min(left, 5.0))
        if rd:
            b = os.read(r, 1 << 16)
            if not b:
                break
            buf.append(b)
    os.close(r)
    try:
        os.killpg(pid_, signal.SIGKILL)
    except OSError:
        pass
    _, status = os.waitpid(pid_, 0)
    if state == "timeout":
        return "timeout", None
    data = b"".join(buf)
    if not data:
        return "error", "run ended without an answer (status %d)" % status
    k, v = pickle.loads(data)
    if k == "ok":
        res = Result()
        res.__dict__.update(v)
        return "ok", res
    return k, v


# ---------------------------------------------------------------- shrinking
def _try(pid, plan, cls, deadline):
    if time.time() > deadline:
        return None
    k, v = run_child(pid, plan, 120)
    if k != "ok":
        return None
    for c, d in v.viol:
        if c == cls:
            return v
    return None


def shrink(pid, plan, cls, budget):
    deadline = time.time() + budget
    tries = 0
    mod = load(pid)
    paths = getattr(mod, "SHRINK", [])
    best = plan

    def get(p, path):
        for k in path:
            if p is None:
                return None
            p = p.get(k) if isinstance(p, dict) else (p[k] if isinstance(p, list) and k < len(p) else None)
        return p

    def put(p, path, v):
        p = json.loads(json.dumps(p))
        q = p
        for k in path[:-1]:
            q = q[k]
        q[path[-1]] = v
        return p

    progress = True
    while progress and time.time() < deadline:
        progress = False
        for path in paths:
            lst = get(best, path)
            if not isinstance(lst, list) or not lst:
                continue
            n = len(lst)
            while n >= 1 and time.time() < deadline:
                i = 0
                changed = False
                while i < len(lst):
                    cand = put(best, path, lst[:i] + lst[i + n:])
                    tries += 1
                    if _try(pid, cand, cls, deadline):
                        best = cand
                        lst = get(best, path)
                        progress = changed = True
                    else:
                        i += n
                n = n // 2 if n > 1 else (1 if changed and False else 0)
        if hasattr(mod, "simpler"):
            for cand in mod.simpler(best):
                if time.time() > deadline:
                    break
                tries += 1
                if _try(pid, cand, cls, deadline):
                    best = cand
                    progress = True
                    break
    return best, tries


# ------------------------------------------------------------------- search
def worker(pid, seed, tier, lo, step, n, t_end, out):
    mod = load(pid)
    i = lo
    while i < n:
        if time.time() > t_end:
            break
        r = random.Random("%d:%s:%d" % (seed, pid, i))
        try:
            plan = json.loads(json.dumps(mod.gen(r, i, tier)))
        except BaseException:
            import traceback
            pickle.dump((i, None, "error", "gen: " + traceback.format_exc()[-3000:], 0.0), out, 4)
            out.flush()
            i += step
            continue
        t0 = time.time()
        k, v = run_child(pid, plan)
        if k == "timeout":
            k, v = run_child(pid, plan, RUN_TIMEOUT * 1.2)
        pickle.dump((i, plan, k, v.__dict__ if k == "ok" else v, time.time() - t0), out, 4)
        out.flush()
        i += step


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("finding: property=%s " % pid):
                rest = ln.split(" ", 2)[2]
                cls, _, what = rest.partition(" | ")
                out.append((cls.strip(), what.strip()))
    return out


def check(pid, tier, seed, workers=8, runs=None, verbose=False):
    t0 = time.time()
    mod = load(pid)
    n = runs or mod.RUNS[tier]
    cap = (420 if tier == "quick" else float(os.environ.get("SIM_THOROUGH_S", "3000")))
    t_end = t0 + cap
    print("seed=%d property=%s tier=%s runs=%d workers=%d" % (seed, pid, tier, n, workers), flush=True)
    procs = []
    for wk in range(workers):
        r, w = os.pipe()
        p = os.fork()
        if p == 0:
            os.close(r)
            code = 0
            try:
                worker(pid, seed, tier, wk, workers, n, t_end, os.fdopen(w, "wb"))
            except BaseException:
                import traceback
                traceback.print_exc()
                code = 4
            os._exit(code)
        os.close(w)
        procs.append((p, os.fdopen(r, "rb")))
    recs = []
    stop_on = None
    import threading
    lock = threading.Lock()
    kill_flag = []
    known = known_findings(pid)

    def reader(f):
        while True:
            try:
                rec = pickle.load(f)
            except EOFError:
                return
            except Exception:
                return
            with lock:
                recs.append(rec)
                if rec[2] == "ok" and any(not _known(c, d, known) for c, d in rec[3]["viol"]):
                    kill_flag.append(rec[0])
    ths = [threading.Thread(target=reader, args=(f,)) for _, f in procs]
    for t in ths:
        t.start()
    grace = None
    while any(t.is_alive() for t in ths):
        time.sleep(0.1)
        if kill_flag and grace is None:
            grace = time.time() + (1.0 if not verbose else 1e9)
        if grace is not None and time.time() > grace:
            for p, _ in procs:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
            break
    for p, _ in procs:
        try:
            os.waitpid(p, 0)
        except OSError:
            pass
    for t in ths:
        t.join(5)
    recs.sort(key=lambda r: r[0])
    t_search = time.time() - t0
    if os.environ.get("SIM_DIGEST"):
        with open(os.environ["SIM_DIGEST"], "w") as f:
            for i, plan, k, v, dt in recs:
                what = [plan, k, [v[x] for x in ("viol", "stats", "keys", "states", "skipped", "evals", "steps", "simtime")] if k == "ok" else v]
                parts = [hashlib.sha256(json.dumps(x, sort_keys=True, default=str).encode()).hexdigest()[:8] for x in [plan] + (what[2] if k == "ok" else [v])]
                f.write("%d %s %s\n" % (i, k, " ".join(parts)))
    # aggregate ----------------------------------------------------------
    stats, keys, states, skipped, errors, viols, slow = {}, set(), set(), {}, [], [], []
    simtime = steps = 0
    finds = {}
    for i, plan, k, v, dt in recs:
        slow.append((round(dt, 2), i))
        if k != "ok":
            errors.append((i, k, v, plan))
            continue
        for a, b in v["stats"].items():
            stats[a] = stats.get(a, 0) + b
        keys.update(v["keys"])
        states.update(v["states"])
        simtime += v["simtime"]
        steps += v["steps"]
        if v["skipped"]:
            skipped[v["skipped"]] = skipped.get(v["skipped"], 0) + 1
        for c, d in v["viol"]:
            kf = _known(c, d, known)
            if kf:
                finds[kf] = finds.get(kf, 0) + 1
            else:
                viols.append((i, plan, c, d))
    samples = []
    for i, plan, k, v, dt in recs:
        if k == "ok" and not v["skipped"] and v["keys"]:
            s = json.dumps(plan)
            if len(s) < 6000:
                samples.append(dict(run=i, plan=plan, reached=v["states"][:6]))
        if len(samples) >= 3:
            break
    fk = {a: b for a, b in stats.items() if a.startswith("fault:")}
    cov = dict(
        evaluations=sum(r[3]["evals"] for r in recs if r[2] == "ok"), simulated_runs=len([1 for r in recs if r[2] == "ok"]),
        distinct_nontrivial=len(keys), rule=mod.RULE, samples=samples,
        runs_planned=n, runs_skipped=skipped, harness_errors=len(errors),
        runs_per_hour=round(3600.0 * len(recs) / max(t_search, 1e-9)), seeds_per_hour=round(3600.0 * len(recs) / max(t_search, 1e-9)),
        simulated_seconds=round(simtime, 3), simulated_steps=steps, faults_injected=fk,
        probes={a: b for a, b in stats.items() if not a.startswith("fault:")},
        distinct_states=len(states), distinct_states_measure=mod.STATES,
        real_components=getattr(mod, "REAL", REAL), stub_components=getattr(mod, "STUB", STUB),
        known_findings=finds, slowest_runs=sorted(slow)[-3:],
    )
    status = 0
    replay = None
    if viols:
        res = None
        t_rep = time.time() + 300
        for i, plan, c, d in viols[:4]:
            best, tries = shrink(pid, plan, c, (90 if tier == "quick" else 300) if i == viols[0][0] else 20)
            for p in [best] * 3 + [plan] * 3:
                if time.time() > t_rep:
                    break
                k, v = run_child(pid, p, 120)
                hit = [x for x in v.viol if x[0] == c] if k == "ok" else []
                if hit:
                    res, best = tuple(hit[0]), p
                    break
            if res:
                break
        # what never comes back is itself what C01 forbids
        sure = res is not None or pid == "C01"
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        replay = os.path.join(VERIF, "replays", "%s-%d-%d.json" % (pid, seed, i))
        with open(replay, "w") as f:
            json.dump(dict(property=pid, seed=seed, run=i, violation=c, detail=res[1] if res else d, plan=best,
                           reproduced=bool(res), shrink_tries=tries), f, indent=1)
        cov["violation"] = dict(run=i, cls=c, detail=res[1] if res else d, shrink_tries=tries, reproduced=bool(res))
        if sure:
            status = 1
            print("run %d: %s: %s" % (i, c, res[1] if res else d))
        else:
            status = 2
            print("HARNESS: run %d violated %s (%s) but does not replay" % (i, c, d))
    elif errors:
        status = 2
        for i, k, v, plan in errors[:5]:
            print("HARNESS ERROR run %d: %s %s" % (i, k, v))
    elif not cov["evaluations"] or not keys:
        status = 2
        print("HARNESS: nothing was explored: %s" % skipped)
    for kf, cnt in sorted(finds.items()):
        print("KNOWN-FINDING: property=%s %s (%d runs)" % (pid, kf, cnt))
    ev = dict(property=pid, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov, assumptions=ASSUME + getattr(mod, "ASSUME", []),
              wall_s=round(time.time() - t0, 2), violations=len(viols))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("property=%s evaluations=%d distinct=%d states=%d skipped=%s errors=%d violations=%d %.1fs" % (
        pid, cov["evaluations"], len(keys), len(states), skipped, len(errors), len(viols), time.time() - t0))
    if verbose:
        for i, plan, c, d in viols[:40]:
            print("   viol run", i, c, d[:300])
        print("  ", json.dumps(fk), json.dumps(cov["probes"]))
        print("   slow", cov["slowest_runs"])
        for i, k, v, plan in (errors[5:20] if not viols else errors[:20]):
            print("   err", i, k, str(v)[-300:])
    if status == 1:
        print("VIOLATION property=%s replay=%s" % (pid, replay))
    return status


def _known(c, d, known):
    for cls, what in known:
        if c == cls and what.split(" ~ ")[0] in d:
            return "%s | %s" % (cls, what)
    return None


REAL = ["every line of otpod", "OpenTURNS", "NumPy, SciPy, scikit-learn, statsmodels", "matplotlib with the agg backend"]
STUB = ["wall clock, sleep and plt.pause/show", "standard output", "operating-system entropy", "the user's physical model (a formula which logs, delays and fails as planned)"]
ASSUME = ["OpenTURNS, NumPy, SciPy, scikit-learn, statsmodels and matplotlib are deterministic functions of their arguments and generator states (single-threaded)",
          "sampled, not exhaustive: a clean batch is evidence over the explored plans, not a proof"]
