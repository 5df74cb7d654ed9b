"""Real sampler processes driven by a scripted main process that sends independent exact draws from the prior above a fixed
threshold: what comes back must be distributed as the prior above that threshold."""
import os
import shutil
import tempfile
import warnings

import numpy as np

from . import core, ideal, instr, oracles, scenario, seams
from .refmodel import key

INF = float("inf")


def run_plan(plan):
    out = tempfile.mkdtemp(prefix="sim", dir=plan.get("scratch", "/dev/shm"))
    try:
        return _run(plan, out)
    finally:
        shutil.rmtree(out, ignore_errors=True)


def exact_draws(spec, T, n, rng):
    xs = []
    got = 0
    while got < n:
        x, ll = ideal.draws(spec, 20000, rng)
        x = x[:, ll > T]
        xs.append(x)
        got += x.shape[1]
    return np.concatenate(xs, axis=1)[:, :n]


def _run(plan, out):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    sim = core.Sim(plan, out)
    ctx = scenario.Ctx(plan, sim, out)
    core.SIM = sim
    sim.ckpt_hook = lambda name: None
    oracles.attach(ctx)
    cfg = plan["cfg"]
    spec, T = cfg["model"], plan["T"]
    T = -INF if T is None else T
    n = cfg["nthreads"]
    per = plan["burn"] + plan["measure"]
    rng = np.random.RandomState(plan["seed"] % (2 ** 32))
    feed = exact_draws(spec, T, n * per, rng)
    got = [[] for i in range(n)]
    violations = []
    low = [0]

    def pure(model, p):
        v = model.loglike([p[k] for k in model.names])
        return v

    def main():
        cp = scenario.make(cfg, 0, out)
        rv = scenario.RunView(0, cfg, cp, out)
        scenario.tag(cp, sim, rv)
        sim.current_run = rv
        sim.good = lambda o: True
        m = cp.manager
        m.logLmin.value = T
        for p in cp.process_pool:
            p.start()
        names = cp.user.names
        k = 0
        for r in range(per):
            for i in range(n):
                q = cp.user.new_point()
                for j, nm in enumerate(names):
                    q[nm] = feed[j, k]
                k += 1
                q.logP = cp.user.logprior([q[nm] for nm in names])
                q.logL = pure(cp.user, q)
                if q.logL > m.logLmax.value:
                    m.logLmax.value = q.logL
                m.consumer_pipes[i].send(q)
            for i in range(n):
                acc, sub, steps, o = m.consumer_pipes[i].recv()
                if not cp.user.in_bounds(o):
                    violations.append(("C09", "bounds", "a delivered sample is out of bounds: %s" % (key(o),)))
                v = pure(cp.user, o)
                if v != o.logL:
                    violations.append(("C09", "altered", "a delivered sample carries logL=%r, its likelihood is %r" % (o.logL, v)))
                if not o.logL > T:
                    low[0] += 1
                    continue
                if r >= plan["burn"]:
                    got[i].append([o[nm] for nm in names] + [o.logL])
                sim_obj = [q2 for q2 in sim.procs[1:]][i].obj
                for o2 in list(sim_obj.evolution_points):
                    if o2.logL == o2.logL and pure(cp.user, o2) != o2.logL:
                        violations.append(("C09", "pool-altered", "a pool point carries logL=%r, its likelihood is %r"
                                           % (o2.logL, pure(cp.user, o2))))
        m.logLmin.value = INF
        for p in m.consumer_pipes:
            p.send(None)
        for p in cp.process_pool:
            p.join()

    instr.watch(False)
    inc = plan["incs"][0]
    stop = sim.run(main, inc.get("faults", []), inc["sched"])
    core.SIM = None
    p0 = sim.procs[0]
    if stop != "finished" or p0.exitcode != 0:
        k = [q for q in sim.procs[1:] if q.exc]
        violations.append(("C09", "end", "%s (%s): main %s %s, samplers %s" % (stop, sim.stop_msg, p0.exitcode, p0.exc, [q.exc for q in k])))
    return dict(violations=violations[:20], hash=sim.hash.hexdigest(), events=sim.nevents, steps=sim.step,
                like=sim.total_like, sim_time=sim.now - sim.t_start, fired=sim.fired, probes=sim.probe,
                sched=sim.switch_sig.hexdigest(), nswitch=sim.nswitch,
                incs=[dict(stop=stop, msg=sim.stop_msg, main=p0.exitcode, exc=p0.exc, fired_n={}, workers=[])],
                switches=sim.switch_log if plan.get("want_switches") else None,
                tb=[q.tb for q in sim.procs if q.tb], full=sim.full, stop_like=sim.stop_like,
                stats=dict(got=got, low=low[0]), trace=sim.trace[-60:] if violations else None)
