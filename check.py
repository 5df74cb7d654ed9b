#!/opt/venv/bin/python
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--runs N] [--seconds S]: decides a property by seeded simulation.
check.py --replay FILE: reruns a recorded failure.   check.py --list"""
import argparse
import json
import os
import subprocess
import sys
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

from sim import build, gen, minimise, pool, stats                    # noqa: E402

# simulated runs of the quick tier; the thorough tier goes on for THOROUGH seconds
RUNS = dict(C01=300, C02=300, C03=300, C04=300, C05=200, C06=300, C07=360, C08=300, C09=800, C10=320, C11=300, C12=320,
            C13=300, C14=120, C15=260, C16=300, C17=160, C18=700, C19=300, C20=200, C21=150)
DEADLINE = 300            # seconds of simulation in the quick tier, whatever the number of runs
THOROUGH = 1500
MINIMISE = dict(quick=60, thorough=240)
FAULTY = {"C10", "C11", "C12", "C14"}
REAL = ["cpnest.cpnest (CPNest, RunManager, signal handler, LogFile)", "cpnest.NestedSampling", "cpnest.sampler", "cpnest.proposal",
        "cpnest.parameter (compiled)", "cpnest.model", "cpnest.nest2pos", "cpnest.utils", "pickle", "file contents on a real tmpfs directory",
        "numpy and random generators (one private state per simulated process)"]
STUB = ["multiprocessing Process/Pipe/Value/Manager (simulated processes in one interpreter)", "signal delivery", "time.time and timers",
        "file operations pass through a fault layer", "cpnest.plot (no figures)", "likelihoods (analytic test models)", "os.system('rm ...')"]


def level_of(prop):
    return "fault_enumeration" if prop in () else "exploration"


def load_known():
    try:
        with open(os.path.join(HERE, "known_findings.json")) as f:
            return json.load(f)
    except FileNotFoundError:
        return []


def known_for(known, prop, kind, msg):
    for k in known:
        if k.get("status") == "known" and k["property"] == prop and k["kind"] == kind and k.get("match", "") in msg:
            return k
    return None


def brief(plan, res):
    return dict(index=plan["index"], config=plan["cfg"],
                incarnations=[dict(schedule=i["sched"]["kind"], faults=i["faults"], **({"config": i["cfg"]} if i.get("cfg") else {}))
                              for i in plan["incs"]],
                ended=[i["stop"] for i in res["incs"]], events=res["events"], switches=res["nswitch"], faults_fired=res["fired"],
                log_hash=res["hash"])


def save_replay(prop, kind, msg, plan, res, how):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (prop, kind))
    with open(path, "w") as f:
        json.dump(dict(property=prop, kind=kind, message=msg, hash=res["hash"], plan=plan, how=how,
                       end_of_trace=res.get("trace"), traceback=res.get("tb")), f, indent=1)
    return path


def fresh(pl, plan):
    """Runs a plan in a process of its own, forked from a newly started simulator."""
    p = pool.Pool(1, pkg=pl.pkg)
    try:
        return p.one(plan)
    finally:
        p.close()


def replay(path):
    with open(path) as f:
        d = json.load(f)
    if "ensemble" in d:
        e = d["ensemble"]
        return main_run(d["property"], e["tier"], e["seed"], e["runs"], None, only_stats=True)
    pl = pool.Pool(1)
    res = pl.one(d["plan"])
    pl.close()
    if "error" in res:
        print(res["error"])
        return 2
    hit = [v for v in res["violations"] if v[0] == d["property"] and v[1] == d["kind"]]
    print("event log %s (recorded %s)" % (res["hash"], d["hash"]))
    if hit:
        print(hit[0][2])
        print("VIOLATION property=%s replay=%s" % (d["property"], os.path.abspath(path)))
        return 1
    print("not reproduced on this tree")
    return 0


def main_run(prop, tier, seed, runs, seconds, only_stats=False):
    t0 = time.monotonic()
    pl = pool.Pool()
    known = load_known()
    quick = tier == "quick"
    n = runs or (RUNS[prop] if quick else 10 ** 7)
    deadline = time.monotonic() + (seconds or (DEADLINE if quick else THOROUGH))
    fired, probes, stop, cnt, tot = Counter(), Counter(), Counter(), Counter(), Counter()
    hashes, scheds = set(), set()
    nontrivial = set()
    errors, found, rows, samples, seen_known = [], [], [], [], {}
    cpu = [0.0]
    sim_time = [0.0]

    def on(plan, res):
        if "error" in res:
            errors.append((plan["index"], res["error"], bool(res.get("timeout"))))
            return
        cnt["runs"] += 1
        for k in ("events", "like", "nswitch", "steps"):
            tot[k] += res[k]
        cpu[0] += res["cpu"]
        sim_time[0] += res["sim_time"]
        fired.update(res["fired"])
        probes.update({k: v for k, v in res["probes"].items()})
        for i in res["incs"]:
            stop[i["stop"]] += 1
        hashes.add(res["hash"])
        scheds.add(res["sched"])
        for k, v in res["stats"].items():
            if isinstance(v, int) and not isinstance(v, bool):
                tot["stat:" + k] += v
        ok = res["nswitch"] > 2 and (prop not in FAULTY or res["fired"])
        if ok:
            nontrivial.add(res["hash"])
            if len(samples) < 3:
                samples.append(brief(plan, res))
        if prop in stats.BY:
            rows.append((plan, dict(stats=res["stats"])))
        for a, b, m in res["violations"]:
            if a == prop:
                k = known_for(known, a, b, m)
                if k:
                    seen_known[k["id"]] = (k, m)
                elif not only_stats:
                    found.append((plan["index"], b, m, plan, res))

    pl.map((gen.make(prop, seed, i) for i in range(n)), on, deadline=deadline, stop=lambda: bool(found) or len(errors) > 50)
    search = time.monotonic() - t0
    code, nviol = 0, 0
    table = None
    if not found and not errors[50:] and prop in stats.BY and rows:
        rows.sort(key=lambda x: x[0]["index"])
        table, bad = stats.BY[prop](rows)
        for kind, msg in bad[:1]:
            d = os.path.join(HERE, "replays")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, "%s-%s.json" % (prop, kind))
            with open(path, "w") as f:
                json.dump(dict(property=prop, kind=kind, message=msg, ensemble=dict(tier=tier, seed=seed, runs=len(rows)), table=table), f, indent=1)
            print(msg)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            code = 1
            nviol = len(bad)
    inc = sum(v for k, v in probes.items() if k.startswith("inconclusive"))
    if prop == "C07" and not found and cnt["runs"] >= 40 and inc > 0.15 * cnt["runs"]:
        msg = "%d of %d runs did not come to an end within the step limit: samplers search without success" % (inc, cnt["runs"])
        path = os.path.join(HERE, "replays", "C07-stuck.json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            json.dump(dict(property=prop, kind="stuck", message=msg, ensemble=dict(tier=tier, seed=seed, runs=cnt["runs"])), f)
        print(msg)
        print("VIOLATION property=C07 replay=%s" % path)
        code, nviol = 1, 1
    unconfirmed = []
    for index, kind, msg, plan, res in sorted(found, key=lambda x: x[0])[:6]:
        again = fresh(pl, plan)
        if not minimise.fails(again, prop, kind):
            unconfirmed.append((index, kind, msg))
            continue
        exact = again["hash"] == res["hash"]
        mini, small = plan, again
        tried = 0
        if exact:
            m = minimise.Minimiser(pl, plan, prop, kind, MINIMISE[tier])
            m.run()
            tried = m.tried
            last = fresh(pl, m.plan)
            if minimise.fails(last, prop, kind):
                mini, small = m.plan, last
        text = [v[2] for v in small["violations"] if v[0] == prop and v[1] == kind][0]
        path = save_replay(prop, kind, text, mini, small, dict(
            seed=seed, index=index, exact_replay=exact, minimiser_runs=tried, switches_before=res["nswitch"], switches_after=small["nswitch"],
            incarnations_before=len(plan["incs"]), incarnations_after=len(mini["incs"]),
            faults_before=sum(len(i["faults"]) for i in plan["incs"]), faults_after=sum(len(i["faults"]) for i in mini["incs"]), original=plan))
        print("%s (%s, run %d of seed %s)" % (text, kind, index, seed))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        code, nviol = 1, nviol + 1
        break
    pl.close()
    for k, m in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    wall = time.monotonic() - t0
    if code == 0 and unconfirmed:
        print("not reproducible, so not reported as a violation: %s" % (unconfirmed[:3],))
        code = 2
    if code == 0 and (len(errors) > max(3, 0.2 * (cnt["runs"] + len(errors))) or not cnt["runs"]):
        print("the simulator could not run %d of %d plans; first error:\n%s" % (len(errors), cnt["runs"] + len(errors), errors[0][1] if errors else "-"))
        code = 2
    cov = dict(
        evaluations=cnt["runs"], distinct_nontrivial=len(nontrivial),
        rule="One evaluation is one simulated execution of the whole program (all processes, possibly several incarnations), drawn from (property, "
             "seed, index). It counts as non-trivial when processes were switched more than twice%s and its complete event log "
             "(hash) differs from every other." % (" and at least one fault was injected" if prop in FAULTY else ""),
        samples=samples or [dict(note="no run")],
        runs_per_hour=round(cnt["runs"] / max(search, 1e-9) * 3600), seeds_per_hour=round(cnt["runs"] / max(search, 1e-9) * 3600),
        simulated_seconds=round(sim_time[0], 3), cpu_seconds=round(cpu[0], 1),
        faults_injected=dict(fired), distinct_event_logs=len(hashes), distinct_interleavings=len(scheds),
        interleaving_measure="distinct sequences of process switches over whole runs", process_switches=tot["nswitch"], scheduling_points=tot["steps"],
        likelihood_evaluations=tot["like"], incarnations_ended=dict(stop),
        signal_delivered_in={k[10:]: v for k, v in sorted(probes.items()) if k.startswith("signal-in:")},
        reached={k: v for k, v in sorted(probes.items()) if not k.startswith("signal-in:")},
        totals={k[5:]: v for k, v in sorted(tot.items()) if k.startswith("stat:")},
        inconclusive=inc, harness_errors=len(errors), ran_real_code=REAL, ran_stub=STUB)
    if table is not None:
        cov["statistics"] = table
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not only_stats:
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(dict(property=prop, tier=tier, seed=seed, level=level_of(prop), coverage=cov, wall_s=round(wall, 2), violations=nviol,
                           assumptions=["a crash is the end of the processes, not of the machine: written data survives",
                                        "process switches happen at operations on pipes, shared values, files, processes and every 100 likelihood "
                                        "evaluations; processes share no other state"]), f, indent=1)
    print("%s: %d runs, %d distinct, %d interleavings, faults %s, %.0f s%s" % (
        prop, cnt["runs"], len(hashes), len(scheds), dict(fired), wall, ", %d errors" % len(errors) if errors else ""))
    return code


def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop", nargs="?")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a.add_argument("--runs", type=int)
    a.add_argument("--seconds", type=float)
    a.add_argument("--replay")
    a.add_argument("--list", action="store_true")
    a = a.parse_args()
    if a.list:
        print(" ".join(RUNS))
        return 0
    if a.replay:
        return replay(a.replay)
    return main_run(a.prop, a.tier, a.seed, a.runs, a.seconds)


if __name__ == "__main__":
    try:
        code = main()
    except SystemExit as e:
        if isinstance(e.code, str):
            print(e.code)
        code = e.code if isinstance(e.code, int) and e.code != 1 else 2
    sys.exit(code)
