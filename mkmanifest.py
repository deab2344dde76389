"""Writes MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
TECH = "deterministic simulation with fault injection: "
COMMON = (" Seeded search, not exhaustive: a clean batch is evidence, not proof. Real code: otpod, OpenTURNS, NumPy, scikit-learn, statsmodels, Matplotlib; "
          "simulated: clock, entropy, random states, standard streams, file system faults, interrupts, memory failures, physical model, thread scheduling (see DESIGN.md).")
C = {
 "C01": ("twin processes of one study with the same generator states and different histories, clocks, hash seeds, entropy and verbosity must agree", "exploration",
         "Each run compares complete answers and final generator states of the twins bit for bit."),
 "C02": ("random query histories (repeated, interleaved over simulated threads, failed, interrupted) against a twin asked first and alone", "exploration",
         "Answers must be equal and generator states unchanged; thread switches, interrupts and disk faults are placed by the seed."),
 "C03": ("interrupts, memory failures, stream and computation errors at seed-chosen points of run(); reported state must be all old, all new or refused", "exploration",
         "Fault points are CPython call and jump events inside run(); oracle is the pair of uninterrupted twins."),
 "C04": ("random histories of accepted and rejected settings and runs against twins with only the effective settings", "exploration",
         "Settings are drawn per kind of study; a rejected one must change nothing, an accepted one must act at the next run only."),
 "C05": ("adaptive studies with a simulated physical model that fails, is noisy or slow, and interrupts; design checked against the model's own journal", "exploration",
         "The oracle is the journal of the simulated physical model."),
 "C06": ("adaptive studies under failures then recovery; completion within a step bound and availability of every report", "exploration",
         "Liveness as bounded progress: steps counted in simulated call events once the faults stop."),
 "C07": ("simulated disk errors at every kind of operation and byte position (ENOSPC, EIO, short and lost writes, limits, crash) against the faultless file", "exploration",
         "The saving call must raise or leave the complete file; the repeated call must write exactly the faultless file."),
 "C08": ("snapshot of the process-wide state around every operation with success, failure and interruption at seed-chosen points", "exploration",
         "Covers the state listed in the property; state of OpenTURNS' own log flags is excluded (DESIGN.md)."),
 "C09": ("fingerprints of the caller's objects around every operation, and histories in which the caller later changes them, against an undisturbed twin", "exploration",
         "Containers of many kinds (views, read-only, Fortran order, subclasses) are drawn by the seed."),
 "C10": ("twins of one data set in different random streams and simulation sizes must agree on every data-determined answer", "exploration",
         "Agreement up to 1e-8 relative (order of floating point sums)."),
 "C11": ("simulated random streams against reference models of each method's own uncertainty, with calibrated statistical bounds and exact order and inversion checks", "exploration",
         "Statistical bounds have a false alarm probability below 1e-9 per comparison; smaller deviations are not seen."),
 "C12": ("summaries with random subsets of active, failing and interrupted methods against their sub-studies and stand-alone studies", "exploration",
         "Text, file and graphs are parsed and compared with the sub-studies."),
 "C13": ("several studies sharing objects, operations and threads interleaved by the seeded scheduler, each compared with its solo twin", "exploration",
         "The scheduler switches at call and jump events inside the operations; exactly one thread runs at a time."),
 "C14": ("sensitivity studies over random grids, deltas, estimators, degenerate sizes and streams against per-size references", "exploration",
         "Exact where no fresh random numbers are drawn per size, calibrated statistical bounds otherwise."),
 "C17": ("twins of one study told in two ways (filtered data, analysis, given parameter, reported settings, order, units) in the same random streams and under the same model failures", "exploration",
         "Relations are exact up to rounding; the bootstrap curves of quantile regression and of the residual laws are not compared where the two ways draw different samples."),
}
NA = {
 "C15": "pure function of its input: no schedule, clock, fault, history or random stream takes part, so deterministic simulation has nothing to decide; the effects of histories and streams on these values are decided by C01, C02, C09 and C10",
 "C16": "pure function of the marginal and the delta (numerical optimisation without schedule, clock, fault or random stream): not a simulation target",
}
checks, na = [], []
for pid, (t, lvl, note) in C.items():
    if not os.path.exists(os.path.join(HERE, "sim", "p_%s.py" % pid.lower())):
        na.append(dict(property=pid, reason="check under construction"))
        continue
    checks.append(dict(property=pid, quick_cmd="./check.sh %s" % pid, thorough_cmd="VERIF_TIER=thorough ./check.sh %s" % pid,
                       evidence_file="evidence/%s.json" % pid, technique=TECH + t, level=lvl, level_note=note + COMMON))
na += [dict(property=p, reason=r) for p, r in NA.items()]
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the seams are the user-supplied callbacks and objects, the process-wide services (time, streams, files, random states) and CPython's sys.monitoring events.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
