"""C13: studies do not influence each other."""
from .common import *  # noqa
from . import studies
from .p_c04 import good_value, bad_value, GETTERS

LEVEL = "exploration"
RUNS = dict(quick=420, thorough=9000)
RULE = ("one run = 2 to 4 random studies which share data, distributions, covariance models, bases, residual laws, analyses, physical models, metamodel results or one "
        "another (a sensitivity study and its POD), each with its own generator states and its own history of settings, runs, failures and queries; the histories "
        "are interleaved in sequence or in scheduled threads, and every answer of every study must be the one of the same study alone; non-trivial when two "
        "studies answered; distinct by configurations and interleaving")
STATES = "distinct (kinds, interleaving)"
SHRINK = [["ops"], ["segs"]]
GROUPS = [["gauss", "bin"], ["gauss", "qr"], ["alin", "alin"], ["krig", "krig"], ["chaos", "krig"], ["chaos", "chaos"], ["krig", "krig"], ["chaos", "chaos"], ["asig", "asig"], ["asig", "krig"], ["hm", "hm"],
          ["hm", "asig"], ["krig", "sobol"], ["sobol", "sobol"], ["plim", "sobol"], ["plim", "plim"], ["plim", "pliv"], ["chaos1", "chaos1"], ["chaos1", "gauss"],
          ["ks", "ks"], ["ana", "gauss"], ["ana", "ana"], ["summary", "gauss"], ["summary", "summary"], ["qr", "qr"], ["lap", "bin"], ["krig", "asig"], ["summary", "chaos"]]
SHARED_CONF = ["Distribution", "CovarianceModel", "Basis", "AdaptiveStrategy", "ProjectionStrategy"]
LONG = ("summary", "plim", "pliv")


def gen_shared(r, kinds):
    """Specs which share what they can."""
    out = []
    studies.FORCED[:] = []
    try:
        for k in kinds:
            best = None
            for _ in range(12):
                s = gen_spec(r, k, cens=0.15)
                if k == "summary":
                    s["active"] = [m for m in s["active"] if m not in ("Kriging", "QuantileRegression")][:2] or ["LinearGauss"]
                for x in (s, s.get("base") or {}):
                    if "jit" in x:
                        x["jit"] = 0.0         # a noisy model shared by two studies would answer each by turns
                best = s
                if not out or any(json.dumps(s["data"]) == json.dumps(o["data"]) for o in out):
                    break
            out.append(best)
            for x in [best] + ([best["base"]] if best.get("base") else []):
                if not x["data"]["binary"]:
                    studies.FORCED.append(json.loads(json.dumps(x["data"])))
    finally:
        studies.FORCED[:] = []
    for i, s in enumerate(out):
        for o in out[:i]:
            if s["kind"] in ("krig", "asig") and o["kind"] in ("krig", "asig") and s["data"]["dim"] == o["data"]["dim"]:
                for name in ("CovarianceModel", "Basis"):
                    v = get_conf(o, name)
                    if v is not None and r.random() < 0.8:
                        s["conf"] = [c for c in s["conf"] if c[0] != name] + [[name, v]]
            if s["data"] == o["data"] and s["kind"] == o["kind"] and s["kind"] in KINDS_META and r.random() < 0.7:
                s["nt"], s["st"], s["box"] = o["nt"], o["st"], o["box"]
                lo, hi = data_range(s)
                for c in s["conf"]:
                    if c[0] == "DefectSizes":
                        c[1] = sorted(min(max(v, lo), hi) for v in c[1])
            if s["data"] == o["data"]:
                s["cont"] = o["cont"]
                if s.get("base"):
                    s["base"]["cont"] = (o.get("base") or o)["cont"]
                for c in o["conf"]:
                    mine = [x for x in s["conf"] if x[0] == c[0]]
                    if c[0] in SHARED_CONF and c[0] in GETTERS.get(s["kind"], []) and (s["kind"] in KINDS_SENS) == (o["kind"] in KINDS_SENS) \
                            and s["kind"] not in KINDS_SENS and not (c[0] == "Distribution" and s["kind"] in KINDS_ADAPT and "N" in c[1]["t"]) and r.random() < 0.8:
                        if mine:
                            mine[0][1] = c[1]
                        else:
                            s["conf"].append(list(c))
                if s["kind"] in ("alin", "ana") and o["kind"] in ("alin", "ana") and r.random() < 0.7:
                    s["fact"], s["nt"], s["st"], s["box"] = o["fact"], o["nt"], o["st"], o["box"]
                    if s["kind"] == o["kind"] == "alin":
                        s["conf"] = json.loads(json.dumps(o["conf"]))
                break
    return out


def gen(r, i, tier):
    kinds = list(GROUPS[i % len(GROUPS)]) if r.random() < 0.7 else [r.choice(KINDS_ALL) for _ in range(2)]
    if r.random() < 0.25 and not any(k in LONG for k in kinds):
        kinds.append(r.choice([k for k in KINDS_ALL if k not in LONG]))
    if r.random() < 0.3:
        kinds.reverse()
    specs = gen_shared(r, kinds)
    S = [dict(spec=s, base=None, seed=r.randrange(10 ** 6)) for s in specs]
    # a sensitivity study built on a POD study which lives on
    for j in range(len(S)):
        s = S[j]["spec"]
        if s["kind"] in KINDS_SENS:
            twinj = [x for x in range(len(S)) if S[x]["spec"]["kind"] in KINDS_SENS and x < j and S[x]["base"] is not None and r.random() < 0.8
                     and S[S[x]["base"]]["spec"]["data"]["dim"] == s["data"]["dim"] and s["kind"] != "pliv" and S[x]["spec"]["kind"] != "pliv"]
            if twinj:
                b = S[twinj[0]]["base"]
                s["base"] = json.loads(json.dumps(S[b]["spec"]))
                s["data"], s["nt"], s["st"] = s["base"]["data"], s["base"]["nt"], s["base"]["st"]
                for c in s["conf"]:
                    if c[0] == "DefectSizes":
                        c[1] = near_sizes(r, s["base"], 2, 0.0)
                    if c[0] == "Distribution":
                        c[1] = dict(c[1], box=s["data"]["box"][1:], t=c[1]["t"][:1] * (s["data"]["dim"] - 1))
                S[j]["base"] = b
            elif r.random() < 0.8:
                if "jit" in s["base"]:
                    s["base"]["jit"] = 0.0
                S.append(dict(spec=json.loads(json.dumps(s["base"])), base=None, seed=r.randrange(10 ** 6)))
                S[j]["base"] = len(S) - 1
    c = i // len(GROUPS)
    storm = c % 4 == 2 and not any(k in LONG for k in kinds)
    threads = r.random() < 0.4 or storm
    hist = []
    for j, e in enumerate(S):
        hist.append(history(r, e["spec"], j, S, threads))
    plan = dict(studies=S)
    bases = sorted(set(e["base"] for e in S if e["base"] is not None) | set(o["from"][1] for h in hist for o in h if "from" in o))
    if threads:
        pre = []
        for b in bases:
            pre += hist[b][:2]
            # what a sensitivity study reads must not be set while it is read
            hist[b] = [o for o in hist[b][2:] if o["op"] == "ask"]
        plan["segs"] = [[r.choice([1, 2, 3, 5, 8, 20, 60, 200, 500]), r.randrange(len(S))] for _ in range(101)]
        if r.random() < 0.4 or storm:
            # all have run: drawings and queries switched at nearly every call
            for x, h in enumerate(hist):
                if x not in bases:
                    pre += [o for o in h if o["op"] != "ask"]
                d = [q for o in h if o["op"] == "ask" for q in o["q"]]
                dr = [q for q in queries(S[x]["spec"], r, draws=12, saves=2 if S[x]["spec"]["kind"] != "summary" else 0) if q[0] in ("draw", "save") or "draw" in str(q[1:2])]
                if storm and dr:
                    # one drawing method of the kind, each in turn
                    names = sorted(set(q[1] for q in dr if q[0] == "draw"))
                    if names:
                        dr = [q for q in dr if q[1] == names[(c // 4) % len(names)]]
                        d = dr[:1]
                elif r.random() < 0.6 and dr:
                    bc = [q for q in dr if "BoxCox" in str(q)]
                    dr, d = [r.choice(bc if bc and r.random() < 0.5 else dr)], dr[:1]
                hist[x] = [dict(j=x, op="ask", q=[r.choice(dr + dr + d)]) for _ in range(5)]
            plan["segs"] = [[r.choice([1, 1, 2, 3, 4, 40]), r.randrange(len(S))] for _ in range(97)]
        plan["pre"] = pre
        plan["th"] = hist
        if r.random() < 0.25:
            plan["arm"] = [r.randrange(1, 60), r.choice(EXCS)]
        return plan
    ops = []
    left = [list(h) for h in hist]
    for b in bases:
        ops += left[b][:2]
        left[b] = left[b][2:]
    while any(left):
        j = r.choice([x for x in range(len(left)) if left[x]])
        for _ in range(r.choice([1, 1, 2, 3])):
            if left[j]:
                ops.append(left[j].pop(0))
    plan["ops"] = ops
    return plan


def history(r, s, j, S, threads):
    k = s["kind"]
    qs = queries(s, r, draws=2 if k != "summary" else 0, saves=1 if k not in ("summary",) else 0)
    if k == "ana":
        qs = [q for q in qs if q[0] != "savetxt"] + [["savetxt"]]
    bad = bad_queries(s, r)[:1]
    qs = r.sample(qs, min(len(qs), 7))
    h = [dict(j=j, op="build"), dict(j=j, op="run")]
    if k in ("krig", "chaos", "chaos1") and r.random() < 0.8:
        # a study which uses the metamodel, distribution or sizes of another one
        for x in range(len(S)):
            o = S[x]["spec"]
            if x != j and o["kind"] == k and o["data"] == s["data"] and o["nt"] == s["nt"] and o["st"] == s["st"] and not (threads and x > j):
                h.insert(1, {"j": j, "op": "set", "from": [r.choice(["KrigingResult" if k == "krig" else "PolynomialChaosResult", "Distribution", "DefectSizes"]), x]})
                break
    for _ in range(r.choice([2, 3, 4]) if k not in LONG else 2):
        t = r.random()
        if t < 0.55 or k == "ana":
            h.append(dict(j=j, op="ask", q=[r.choice(qs + bad) for _ in range(2)]))
        elif t < 0.75:
            name = r.choice(GETTERS[k])
            v = good_value(r, s, name)
            if v is not None and name not in ("GraphActive", "ClassifierType"):
                h.append(dict(j=j, op="set", name=name, v=v))
            h.append(dict(j=j, op="run"))
        elif t < 0.85 and not threads:
            h.append(dict(j=j, op="run", at=r.choice([r.random(), 0.0]), exc=r.choice(EXCS)))
        elif t < 0.9 and not threads and k in KINDS_ADAPT:
            h.append(dict(j=j, op="run", model=r.randrange(2)))
        else:
            name = r.choice(GETTERS[k])
            v = bad_value(r, s, name)
            if v is not None:
                h.append(dict(j=j, op="set", name=name, v=v))
    h.append(dict(j=j, op="ask", q=qs))
    return h


def do(w, S, op):
    """One operation of one study; what it returned."""
    st = S[op["j"]]
    k = op["op"]
    if k == "ask":
        return st.asks(op["q"])
    if "at" in op:
        w.arm(1 + int(op["at"] * 50), op["exc"])
    if "model" in op and st.model is not None:
        st.model.fail = {st.model.asked + op["model"]}
    try:
        if k == "build":
            return outcome(st.build)[:2]
        if k == "run":
            return outcome(st.run)[:2]
        if "from" in op:
            what, x = op["from"]
            return outcome(lambda: getattr(st.obj, "set" + what)(getattr(S[x].obj, "get" + what)()))[:2]
        return outcome(lambda: st.set(op["name"], op["v"]))[:2]
    finally:
        if "at" in op:
            w.disarm()
        if "model" in op and st.model is not None:
            st.model.fail = set()


def prepare(plan):
    """Everything shared exists before any study."""
    env = {}
    S = []
    for e in plan["studies"]:
        S.append(Study(e["spec"], env))
    for e, st in zip(plan["studies"], S):
        if e["base"] is not None:
            st.base = S[e["base"]]
        for x in [e["spec"]] + ([e["spec"]["base"]] if e["spec"].get("base") else []):
            Study(x, env)._data()
            for _, v in x["conf"]:
                make_obj(v, env)
            if x.get("fact"):
                Study(x, env).fact()
            if x["kind"] == "alin" and ana_key(x) not in env:
                seed_rng(11)
                t = Study(x, env)
                X, Y = t._data()
                try:
                    env[ana_key(x)] = otpod.UnivariateLinearModelAnalysis(X, Y, x["nt"], x["st"], t.fact(), x["box"])
                except Exception:
                    pass
            if x["kind"] in KINDS_ADAPT:
                mk = "model:" + json.dumps([x["data"], x.get("jit")], sort_keys=True)
                if mk not in env:
                    m = Model(x["data"], x.get("jit", 0.0), latency=1.0)
                    m.binary = bool(x["kind"] == "hm" and x["data"]["binary"])
                    env[mk] = m
                    env["fn:%d" % id(m)] = ot.PythonFunction(x["data"]["dim"], 1, m)
        if e["spec"].get("delta"):
            make_obj(e["spec"]["delta"], env)
    rngs = []
    for e in plan["studies"]:
        seed_rng(e["seed"])
        rngs.append(get_rng())
    return S, rngs


def play(w, S, rngs, ops):
    out = []
    for op in ops:
        set_rng(rngs[op["j"]])
        a = do(w, S, op)
        rngs[op["j"]] = get_rng()
        out.append([op["j"], a])
    return out


def needed(plan, ops, j):
    """The operations of the study alone: its own, and those of the studies
    it was given, as long as it reads them."""
    dep, todo = set(), [j]
    while todo:
        x = todo.pop()
        new = {o["from"][1] for o in ops if o["j"] == x and "from" in o} | {plan["studies"][x]["base"]} - {None}
        todo += new - dep - {j}
        dep |= new - {j}
    last = max([n for n, o in enumerate(ops) if o["j"] == j and o["op"] in ("build", "run", "set")] + [-1])
    return [o for n, o in enumerate(ops) if o["j"] == j or (o["j"] in dep and n < last and o["op"] != "ask")]


def digests(rngs):
    out = []
    for g in rngs:
        set_rng(g)
        out.append(rng_digest())
    return out


def compare(res, kinds, j, ops, A, B, what):
    for op, a, b in zip([o for o in ops if o["j"] == j], A, B):
        d = diff(a, b)
        if d:
            qs = ""
            if op["op"] == "ask":
                qs = [q for q, x, y in zip(op["q"], a, b) if diff(x, y)][:1]
            res.violate("influence:" + kinds[j], "study %d (%s) of %s %s: %s %s differs from the same study alone: %s" % (
                j, kinds[j], kinds, what, {k: v for k, v in op.items() if k not in ("q", "j")}, qs, d))
            return False
    return True


def execute(plan, scratch, res):
    w = enter(scratch)
    kinds = [e["spec"]["kind"] for e in plan["studies"]]
    n = len(kinds)
    S, rngs = prepare(plan)
    if "ops" in plan:
        ops = plan["ops"]

        def alone(j):
            r2 = list(rngs)
            mine = needed(plan, ops, j)
            out = play(w, S, r2, mine)
            return [a for x, a in out if x == j], digests(r2)[j]
        solo = [twin(alone, j) for j in range(n)]
        together = play(w, S, rngs, ops)
        dg = digests(rngs)
        for j in range(n):
            if not compare(res, kinds, j, ops, [a for x, a in together if x == j], solo[j][0], "in sequence"):
                return
            if dg[j] != solo[j][1]:
                res.violate("stream:" + kinds[j], "study %d of %s leaves its generators elsewhere than alone" % (j, kinds))
                return
        sig = [o["j"] for o in ops]
        answers = sum(1 for x, a in together for v in (a if a and isinstance(a[0], list) else []) if v[0] == "ok")
    else:
        play(w, S, rngs, plan["pre"])

        def body(j):
            return lambda: [do(w, S, o) for o in plan["th"][j]]

        def alone(j):
            sc = Sched(w, [], rngs)
            fns = [(lambda: []) for _ in range(n)]
            fns[j] = body(j)
            out = sc.run(fns)
            return out[j], digests([sc.rngs[x] for x in range(n)])[j]
        solo = [twin(alone, j) for j in range(n)]
        sc = Sched(w, plan["segs"], rngs, cycle=True)
        w.fired_in = None
        if "arm" in plan:
            w.arm(*plan["arm"])
        outs = sc.run([body(j) for j in range(n)])
        w.disarm()
        hit = w.fired_in
        w.count("fault:thread_switch", sc.switches)
        dg = digests([sc.rngs[x] for x in range(n)])
        answers = 0
        for j in range(n):
            if j == hit:
                continue           # the study in which the fault happened
            if outs[j][0] != "ok" or solo[j][0][0] != "ok":
                if outs[j][0] == solo[j][0][0] or "SimHang" in str(outs[j][1]):
                    continue
                raise HarnessError("thread: %s / %s" % (outs[j], solo[j][0]))
            ops = plan["th"][j]
            if not compare(res, kinds, j, ops, outs[j][1], solo[j][0][1], "in threads (%d switches)" % sc.switches):
                return
            if dg[j] != solo[j][1]:
                res.violate("stream:" + kinds[j], "study %d of %s in threads leaves its generators elsewhere than alone" % (j, kinds))
                return
            answers += sum(1 for a in outs[j][1] for v in (a if a and isinstance(a[0], list) else []) if v[0] == "ok")
        sig = [x[:2] for x in sc.trace]
    plt.close("all")
    res.absorb(w)
    res.count("answers", answers)
    res.states.append("%s %s" % (kinds, h8(sig)))
    if answers >= 2:
        res.keys.append(h8([plan["studies"], sig]))
    else:
        res.count("silent")
