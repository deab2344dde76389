"""C02: asking never changes any answer."""
from .common import *  # noqa

LEVEL = "exploration"
RUNS = dict(quick=360, thorough=6000)
RULE = ("one run = one random study, each query answered alone in its own copy of the process (the oracle), then a random history of the same "
        "queries repeated, failing, interrupted inside, saved to a missing directory, with curve handles kept, in sequence or in 2-3 scheduled "
        "threads; non-trivial when at least 3 queries were answered; distinct by study configuration and history")
STATES = "distinct (kind, interleaving of thread switches or order of queries)"
SHRINK = [["ops"], ["th", 0], ["th", 1], ["th", 2], ["segs"]]


def gen(r, i, tier):
    k = kind_at(i)
    s = gen_spec(r, k)
    qs = queries(s, r, draws=5 if k != "summary" else 1, saves=1 if k != "summary" or r.random() < 0.1 else 0)
    c = i // len(KINDS_ALL)
    focus = None
    if c % 3 == 1 and k != "summary":
        # a storm of one drawing: each drawing method of the kind in turn
        meth = {}
        for _ in range(12):
            for q in queries(s, r, draws=20):
                if q[0] == "draw":
                    meth.setdefault(q[1], (json.loads(json.dumps(s)), q))
            s = gen_spec(r, k)
        names = sorted(meth)
        s, focus = meth[names[(c // 3) % len(names)]]
        qs = [q for q in queries(s, r, draws=2) if q != focus] + [focus]
    if len(qs) > 13 and focus is None:
        qs = r.sample(qs, 13)
    bad = bad_queries(s, r)[:2]
    if k == "ana":
        qs.append(["printed", "printResults"])
    pool = qs + bad
    plan = dict(spec=s, seed=r.randrange(10 ** 6), pool=pool)
    if focus is not None:
        n = r.choice([2, 2, 3])
        f = pool.index(focus)
        others = [j for j, q in enumerate(pool) if q[0] == "draw"]
        plan["th"] = [[f if r.random() < 0.7 else r.choice(others) for _ in range(4)] for _ in range(n)]
        plan["segs"] = [[r.choice([1, 1, 2, 3, 4, 40]), r.randrange(n)] for _ in range(97)]
        plan["seeds"] = [r.randrange(10 ** 6) for _ in range(n)]
    elif r.random() < 0.4 and k != "summary":
        n = r.choice([2, 2, 3])
        ok = [j for j, q in enumerate(pool) if q[0] != "printed"]
        plan["th"] = [[r.choice(ok) for _ in range(r.choice([3, 4, 5]))] for _ in range(n)]
        if r.random() < 0.5:
            # many drawings, switched at nearly every call
            dr = [j for j in ok if pool[j][0] in ("draw", "save") or "draw" in str(pool[j][1:2])] or ok
            if r.random() < 0.5:
                bc = [j for j in dr if "BoxCox" in str(pool[j])]
                dr = [r.choice(bc if bc and r.random() < 0.5 else dr) for _ in range(2)]
                ok = dr
            plan["th"] = [[r.choice(dr + dr + ok) for _ in range(r.choice([4, 6]))] for _ in range(n)]
            plan["segs"] = [[r.choice([1, 1, 2, 3, 4, 40]), r.randrange(n)] for _ in range(97)]
        else:
            plan["segs"] = [[r.choice([1, 2, 3, 5, 8, 20, 60, 200]), r.randrange(n)] for _ in range(60)]
        plan["seeds"] = [r.randrange(10 ** 6) for _ in range(n)]
    else:
        ops = []
        for _ in range(r.choice([8, 12, 16]) if k != "summary" else 6):
            j = r.randrange(len(pool))
            t = r.random()
            if t < 0.2:
                ops.append(dict(q=j, at=r.choice([1, 1, 2, 3, 4, 6]), exc=r.choice(EXCS)))
            elif t < 0.3 and k in POD_KINDS:
                ops.append(dict(handle=r.choice(["pod", 0.95, 0.5, 0.8])))
            elif t < 0.35:
                ops.append(dict(q=j, out=r.choice(["BrokenPipe", "ENOSPC"])))
            else:
                ops.append(dict(q=j))
        plan["ops"] = ops
    return plan


def execute(plan, scratch, res):
    w = enter(scratch)
    spec = plan["spec"]
    seed_rng(plan["seed"])
    st = Study(spec)
    o = outcome(lambda: (st.build(), st.run()))
    if o[0] != "ok":
        res.skipped = "study refused"
        return
    pool = plan["pool"]
    used = sorted(set([o["q"] for o in plan.get("ops", []) if "q" in o]) | set(j for t in plan.get("th", []) for j in t))

    def alone(q):
        k = rng_key()
        a = st.ask(q)
        return a, rng_key() == k
    ref = {}
    for j in used:
        ref[j], still = twin(alone, pool[j])
        if not still:
            res.violate("random:" + spec["kind"], "query %s consumes random numbers" % (pool[j],))
    href = {}
    for op in plan.get("ops", []):
        h = op.get("handle")
        if h is not None and str(h) not in href:
            href[str(h)] = twin(alone, ["pod"] if h == "pod" else ["cl", h])[0]
    trace = []
    n = 0
    if "ops" in plan:
        handles = []

        def check_handles(when):
            for h, m in handles:
                try:
                    a = ["ok", st.curve(m)]
                except Exception as e:
                    a = ["exc", type(e).__name__]
                d = diff(href[str(h)], a)
                if d:
                    res.violate("handle:" + spec["kind"], "curve %s obtained earlier changed after %s: %s" % (h, when, d))
                    handles.clear()
                    return
        for op in plan["ops"]:
            key = rng_key()
            if "handle" in op:
                h = op["handle"]
                try:
                    handles.append((h, st.obj.getPODModel() if h == "pod" else st.obj.getPODCLModel(h)))
                except Exception:
                    pass
                trace.append("h")
                continue
            q = pool[op["q"]]
            if "at" in op:
                w.arm(op["at"], op["exc"])
            if "out" in op:
                w.stdout.fail_at, w.stdout.exc, w.stdout.writes = 1, op["out"], 0
            a = st.ask(q)
            fired = w.fired is not None
            w.disarm()
            w.fired = None
            w.stdout.fail_at = None
            n += 1
            trace.append("%d%s" % (op["q"], "!" if fired else ""))
            if not fired:      # the interrupted query itself is not judged
                d = diff(ref[op["q"]], a)
                if d:
                    res.violate("answer:%s" % spec["kind"], "query %s asked after %s: %s" % (q, trace[-6:], d))
                    break
            if rng_key() != key:
                res.violate("random:" + spec["kind"], "query %s consumes random numbers" % (q,))
                break
            check_handles(q)
    else:
        def body(lst):
            def f():
                return [st.ask(pool[j]) for j in lst]
            return f
        rngs = []
        for sd in plan["seeds"]:
            seed_rng(sd)
            rngs.append(get_rng())
        keys = []
        for g in rngs:
            set_rng(g)
            keys.append(rng_key())
        sc = Sched(w, plan["segs"], rngs, cycle=True)
        outs = sc.run([body(t) for t in plan["th"]])
        w.count("thread_switches", sc.switches)
        w.count("fault:thread_switch", sc.switches)
        for ti, (t, o) in enumerate(zip(plan["th"], outs)):
            if o[0] != "ok":
                if "SimHang" in o[1]:
                    continue
                raise HarnessError("thread: %s" % (o,))
            for j, a in zip(t, o[1]):
                n += 1
                d = diff(ref[j], a)
                if d:
                    res.violate("threads:" + spec["kind"], "query %s in thread %d: %s" % (pool[j], ti, d))
                    break
            set_rng(sc.rngs[ti])
            if rng_key() != keys[ti]:
                res.violate("random:" + spec["kind"], "queries in thread %d consume random numbers" % ti)
        trace = [tuple(x[:2]) for x in sc.trace]
    res.absorb(w)
    res.count("queries", n)
    if n >= 3:
        res.keys.append(specdesc(spec) + h8(trace))
        res.states.append(spec["kind"] + h8(trace))
