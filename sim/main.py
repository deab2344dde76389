import os, sys, json
os.environ.setdefault("MPLBACKEND", "agg")


def main():
    cmd, pid = sys.argv[1], sys.argv[2]
    from . import core, engine
    core.assert_repo()
    core.instrument()
    if not os.environ.get("SIM_STDERR"):
        keep = os.dup(2)
        nul = os.open("/dev/null", os.O_WRONLY)
        os.dup2(nul, 2)
        sys.stderr = os.fdopen(keep, "w")
    if cmd == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if tier not in ("quick", "thorough"):
            tier = "quick"
        seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        runs = int(os.environ["SIM_RUNS"]) if os.environ.get("SIM_RUNS") else None
        sys.exit(engine.check(pid, tier, seed, int(os.environ.get("SIM_WORKERS", "8")), runs, bool(os.environ.get("SIM_VERBOSE"))))
    if cmd == "replay":
        rec = json.load(open(sys.argv[3]))
        k, v = engine.run_child(pid, rec["plan"], 600)
        if k != "ok":
            print("HARNESS", k, v)
            sys.exit(2)
        for c, d in v.viol:
            print("%s: %s" % (c, d))
        same = any(c == rec["violation"] and d == rec["detail"] for c, d in v.viol)
        if v.viol:
            print("VIOLATION property=%s replay=%s exactly_as_recorded=%s" % (pid, sys.argv[3], same))
        sys.exit(1 if v.viol else 0)
    if cmd == "plan":
        import random
        mod = engine.load(pid)
        i = int(sys.argv[3])
        seed = int(os.environ.get("VERIF_SEED", "1"))
        plan = mod.gen(random.Random("%d:%s:%d" % (seed, pid, i)), i, os.environ.get("VERIF_TIER", "quick"))
        print(json.dumps(plan, indent=1))
        k, v = engine.run_child(pid, plan, 600)
        print(k, v if k != "ok" else json.dumps(v.__dict__, indent=1, default=str))
    if cmd == "fresh":          # answers of a reference study in this fresh interpreter
        mod = engine.load(pid)
        plan = json.load(sys.stdin)
        sys.stdout.write("ANSWER " + json.dumps(mod.fresh(plan)) + "\n")


main()
