"""C01: reproducible from data, settings and generator states."""
import subprocess
from .common import *  # noqa

LEVEL = "exploration"
RUNS = dict(quick=250, thorough=6000)
RULE = ("one run = one random study executed alone and again in a process with a random earlier history (sibling studies, failing and "
        "interrupted runs, queries, drawings, clock jumps, other entropy, toggled verbosity, or an interpreter with another hash seed); "
        "non-trivial when the study ran and at least one history event happened; distinct by study configuration and history shape")
STATES = "distinct (study kind, history shape) pairs"
SHRINK = [["hist"], ["mid"], ["qs"], ["specs"]]


def gen(r, i, tier):
    if i % 26 == 25:
        # every kind in its turn
        ks = [kind_at(5 * (i // 26) + j) for j in range(5)]
        specs = []
        for k in ks:
            s = gen_spec(r, k)
            specs.append(dict(spec=s, seed=r.randrange(10 ** 6), qs=queries(s, r, draws=3, saves=0)))
        return dict(mode="hash", hash=r.choice([1, 77, 4242, r.randrange(2, 10 ** 6)]), specs=specs)
    k = kind_at(i)
    s = gen_spec(r, k)
    return dict(mode="hist", spec=s, seed=r.randrange(10 ** 6), seed2=10 ** 6 + r.randrange(10 ** 6),
                qs=queries(s, r, draws=3, saves=1), hist=gen_history(r, s, r.choice([1, 1, 2])),
                mid=gen_history(r, s, r.choice([0, 0, 1])), flip=r.random() < 0.5, again=r.random() < 0.5,
                clock=r.choice([1.7e9, 0.0, 4e9]), entropy=r.randrange(1, 1000))


def solo(spec, seed, qs, scratch, again=False):
    w = enter(scratch)
    seed_rng(seed)
    st = Study(spec)
    st.build()
    st.run()
    if again:
        st.run()
    g = rng_digest()
    ans = st.asks(qs) if qs is not None else []
    return dict(ans=ans, rng=g, rng2=rng_digest(), log=len(w.log.rows), t=w.clock - w.sim_time0, steps=w.steps)


def with_history(plan, scratch):
    w = enter(scratch, plan["entropy"], plan["clock"])
    keep = []
    for op in plan["hist"]:
        do_history(w, op, keep)
    spec = plan["spec"]
    if plan["flip"] and spec.get("verbose") is not None:
        spec = dict(spec, verbose=not spec["verbose"])
    seed_rng(plan["seed"])
    st = Study(spec)
    st.build()
    g0 = get_rng()
    for op in plan["mid"]:
        do_history(w, op, keep)
    set_rng(g0)
    st.run()
    if plan.get("again"):
        st.run()
    g = rng_digest()
    ans = st.asks(plan["qs"])
    return dict(ans=ans, rng=g, rng2=rng_digest(), stats=w.stats, steps=w.steps, t=w.clock - w.sim_time0)


def guarded(fn, *a):
    try:
        return ["ok", fn(*a)]
    except SimHang:
        return ["hang"]
    except HarnessError:
        raise
    except Exception as e:
        return ["exc", type(e).__name__, str(e)[:300]]


def fresh(plan):
    import tempfile, shutil
    out = []
    for e in plan["specs"]:
        d = tempfile.mkdtemp(prefix="otpodsim_")
        out.append(twin(guarded, solo, e["spec"], e["seed"], e["qs"], d))
        shutil.rmtree(d, ignore_errors=True)
    return out


def execute(plan, scratch, res):
    if plan["mode"] == "hash":
        here = fresh(plan)
        env = dict(os.environ, PYTHONHASHSEED=str(plan["hash"]))
        p = subprocess.run([sys.executable, "-m", "sim.main", "fresh", "C01"], input=json.dumps(plan).encode(), env=env,
                           cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        line = [x for x in p.stdout.decode().splitlines() if x.startswith("ANSWER ")]
        if not line:
            raise HarnessError("fresh interpreter gave no answer")
        there = json.loads(line[0][7:])
        res.count("fault:other_hash_seed")
        for e, a, b in zip(plan["specs"], here, there):
            a = json.loads(json.dumps(a))
            for x in (a, b):
                if x[0] == "ok":
                    for kk in ("t", "steps"):
                        x[1].pop(kk)
            d = diff(a, b)
            if d:
                res.violate("hash-seed:" + e["spec"]["kind"], d)
            if a[0] == "ok":
                res.states.append("hash " + e["spec"]["kind"])
        if res.states:
            res.keys.append("hash " + h8(plan))
        return
    spec = plan["spec"]
    ref = twin(guarded, solo, spec, plan["seed"], plan["qs"], scratch, plan.get("again"))
    if ref[0] == "hang":
        res.skipped = "hang " + spec["kind"]
        return
    alt = twin(guarded, with_history, plan, scratch)
    if ref[0] == "exc":
        res.skipped = "study refused"
        if alt[0] == "ok" or alt[1] != ref[1]:
            res.violate("differs:" + spec["kind"], "alone: %s; with history: %s" % (ref[1:], alt[:1] if alt[0] == "ok" else alt[1:]))
        return
    if alt[0] != "ok":
        res.violate("differs:" + spec["kind"], "alone: ok; with history: %s" % (alt,))
        return
    ref, alt = ref[1], alt[1]
    for k, v in alt["stats"].items():
        res.count(k, v)
    res.steps += alt["steps"] + ref["steps"]
    res.simtime += ref["t"]
    for q, a, b in zip(plan["qs"], ref["ans"], alt["ans"]):
        d = diff(a, b)
        if d:
            res.violate("differs:" + spec["kind"], "query %s: alone vs with history %s" % (q, d))
            break
    if ref["rng"] != alt["rng"]:
        res.violate("generator:" + spec["kind"], "the generators end in other states than alone (ot %s, numpy %s)" % (
            ref["rng"][0] == alt["rng"][0], ref["rng"][1] == alt["rng"][1]))
    for x in (ref, alt):
        if x["rng"] != x["rng2"]:
            res.violate("generator-query:" + spec["kind"], "queries moved the generators")
            break
    two = twin(guarded, solo, spec, plan["seed2"], None, scratch)
    if two[0] == "ok":
        for j, lib in enumerate(("OpenTURNS", "NumPy")):
            if two[1]["rng"][j] == ref["rng"][j]:
                res.violate("reseed:" + spec["kind"], "the %s generator ends in the same state from different states" % lib)
    if plan["hist"] or plan["mid"]:
        shape = "|".join(o["op"] + (":" + o["spec"]["kind"] + (":f" if o.get("fault") else "") if o["op"] == "study" else "") for o in plan["hist"] + plan["mid"])
        res.keys.append(specdesc(spec) + " # " + shape)
        res.states.append(spec["kind"] + " # " + shape)


def simpler(plan):
    if plan["mode"] != "hist":
        return
    if plan["flip"]:
        yield dict(plan, flip=False)
    if plan.get("again"):
        yield dict(plan, again=False)
    if plan["clock"] != 1.7e9:
        yield dict(plan, clock=1.7e9)
    for i, c in enumerate(plan["spec"]["conf"]):
        s = dict(plan["spec"], conf=plan["spec"]["conf"][:i] + plan["spec"]["conf"][i + 1:])
        yield dict(plan, spec=s)
