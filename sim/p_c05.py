"""C05: the enriched design."""
from .adapt import *  # noqa

LEVEL = "exploration"
RUNS = dict(quick=420, thorough=12000)
RULE = ("one run = one random adaptive study with a logging physical model, several enrichment runs hit by failing model calls, interrupts, failing "
        "computations or output, and a last run without faults; the reference design (initial rows, then logged answers) is compared inside "
        "every model call, during the drawing of progress and after every run; non-trivial when points were added; distinct by configuration and fault history")
STATES = "distinct (kind, per-run outcome and number of points acquired) histories"
SHRINK = [["rounds"]]


def gen(r, i, tier):
    s = gen_adaptive(r, i)
    return dict(spec=s, seed=r.randrange(10 ** 6), rounds=gen_rounds(r, s), budget=400000)


def execute(plan, scratch, res):
    w = enter(scratch, budget=plan["budget"])
    spec = resolve(plan["spec"], scratch)
    kind = spec["kind"]
    seed_rng(plan["seed"])
    st = Study(spec)
    o = outcome(st.build)
    if o[0] != "ok":
        res.skipped = "study refused"
        return
    D = Design(st, spec, res)
    D.check("before the first run")
    hist = []
    ok = True

    def hook(m, i, x):
        if not res.viol:
            D.check("inside model call %d" % i)
    st.model.hook = hook
    old_pause = plt.pause

    def pause(t=0.0):
        old_pause(t)
        if not res.viol:
            D.check("while drawing progress")
    plt.pause = pause
    for rd in plan["rounds"]:
        if res.viol:
            break
        before = len(D.prev[0])
        asked0, ans0 = st.model.asked, len(st.model.calls)
        st.model.fail = set(asked0 + k for k in rd.get("fail", []))
        seed_rng(rd["seed"])
        if "at" in rd:
            def cnt():
                plt.pause = old_pause
                st.model.hook = None
                w.count_points()
                outcome(st.run)
                return w.disarm()
            try:
                n = twin(cnt)
            except HarnessError:
                n = 50
            w.arm(min(max(n, 1), 1 + int(rd["at"] * n)), rd["exc"])
        if "out" in rd:
            w.stdout.writes = 0
            w.stdout.fail_at, w.stdout.exc = rd["out"], "BrokenPipe"
        try:
            o = outcome(st.run)
        except SimHang:
            res.skipped = "hang"
            return
        w.disarm()
        w.stdout.fail_at = None
        st.model.fail = set()
        plt.close("all")
        if res.viol:
            break
        if not D.check("after run %s (%s)" % ({k: v for k, v in rd.items() if k != "seed"}, o[0])):
            break
        if o[0] == "ok" and not D.completed("after a complete run", before, asked0, ans0):
            break
        hist.append((o[0], len(D.prev[0]) - before))
    if hist and sum(h[1] for h in hist) > 0:
        res.keys.append(specdesc(spec) + h8(plan["rounds"]))
        res.states.append(kind + str(spec["n"]) + str(hist))
    res.count("points_added", sum(h[1] for h in hist))
    res.absorb(w)
