"""Writes MANIFEST.json."""
import json
PY = "/opt/venv/bin/python"
NOTE = {
 "C01": "Parent replayed sample by sample against a reference; thresholds, chain order and strictness judged in every run.",
 "C02": "Multiset of live, consumed and rejected points compared with what was delivered, over complete, interrupted and resumed runs.",
 "C03": "Every consumed and live point's likelihood, prior and bounds are recomputed with the model.",
 "C04": "Reported evidence, information and returned weights recomputed from the recorded chain by an independent implementation.",
 "C05": "Means over many simulated runs compared with an ideal nested sampler; sensitive to biases above about half of one run's standard deviation, finite-chain allowance calibrated.",
 "C06": "Stopping condition evaluated by the reference after every iteration. A late stop is an alarm only after three iterations within tolerance.",
 "C07": "Liveness as bounded progress: deadlock, or 100000 likelihoods / 400000 operations without progress. Unsuccessful honest searches of MCMC or HMC are counted as inconclusive and alarm when above 15 %.",
 "C08": "Shared best likelihood compared with every likelihood evaluated and accepted so far at each write.",
 "C09": "Statistical: real sampler processes fed with exact draws at fixed thresholds; means over hundreds of runs.",
 "C10": "Signals at chosen operations and at chosen bytecode instructions of each process; not inside the C library or multiprocessing itself.",
 "C11": "Resumed state compared with the reference's state at the last completed iteration, whole history across incarnations.",
 "C12": "Crash = end of the processes at any file operation, with torn or short writes, ENOSPC and EIO; the page cache survives.",
 "C13": "Simulated clock, including jumps; upper bounds with slack of one iteration.",
 "C14": "Saved state compared with the state a sampler process starts from in the next incarnation.",
 "C15": "Prefixes of the generator states and of the points evaluated are compared pairwise; does not test statistical independence.",
 "C16": "Ranks recomputed exactly, ties as intervals.",
 "C17": "Files parsed and compared with the returned arrays and the run's record; figures are not drawn.",
 "C18": "Exact counts per run; distribution by means over many runs.",
 "C19": "Proposals counted by counting proposal classes handed to CPNest; Hamiltonian sampler excluded.",
 "C21": "Statistical: complete simulated runs are combined and the counts per run and moments compared over many sets; exact membership per set.",
 "C20": "Several runs in one process judged independently; log handlers and files checked.",
}
NA = {
 "C22": "LivePoint arithmetic and coordinate mappings are pure functions: nothing for a scheduler or fault injector to decide; proposals built on them are covered statistically by C09.",
}
m = dict(version=1, setup_cmd=PY + " -m sim.build",
         checks=[dict(property=p, quick_cmd="%s check.py %s" % (PY, p), thorough_cmd="%s check.py %s --tier thorough" % (PY, p),
                      evidence_file="evidence/%s.json" % p, technique="deterministic simulation with fault injection (seeded search over schedules and faults)" + (
                          ", statistics over runs" if p in ("C05", "C09", "C18", "C21") else ", reference model over the recorded history"),
                      level="exploration", level_note=n) for p, n in sorted(NOTE.items())],
         not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items())],
         notes="No hooks in /repo: all seams are taken from outside (sim/seams.py).")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
