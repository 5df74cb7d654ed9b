"""Runs one plan (a chain of incarnations of the program) in the simulator and returns what happened."""
import logging
import os
import pickle
import shutil
import signal
import sys
import tempfile
import warnings

import numpy as np

from . import core, instr, models, oracles, seams
from .refmodel import key

INF = float("inf")
SIGS = [signal.SIGTERM, signal.SIGALRM, signal.SIGQUIT, signal.SIGINT, signal.SIGUSR1, signal.SIGUSR2]


def point_of(obj):
    if hasattr(obj, "logL"):
        return obj
    if isinstance(obj, (tuple, list)):
        for x in obj:
            if hasattr(x, "logL"):
                return x
    return None


class RunView:
    """What is known of one CPNest object of one incarnation."""

    def __init__(self, inc, cfg, cp, out):
        self.inc, self.cfg, self.cp, self.out = inc, cfg, cp, out
        self.finished = False
        self.start = None
        self.end = None


def ns_state(ns):
    live = [p for p in (ns.params or []) if p is not None]
    return dict(nested=[key(p) for p in ns.nested_samples], live=[key(p) for p in live],
                logZ=ns.state.logZ, info=ns.state.info, iteration=ns.iteration,
                ranks=[float(x) for x in ns.insertion_indices], nlive=ns.Nlive,
                logLmin=raw(ns.manager.logLmin), logLmax=raw(ns.manager.logLmax),
                initialised=bool(getattr(ns, "initialised", len(live) == ns.Nlive)),
                tol=getattr(ns, "tolerance", 0.1), condition=getattr(ns, "condition", None),
                istate=(list(ns.state.logLs), list(ns.state.log_vols)) if hasattr(ns.state, "logLs") else None)


def raw(v):
    return v.raw if hasattr(v, "raw") and hasattr(v, "_wait") else v.value


class Ctx:
    def __init__(self, plan, sim, out):
        self.plan, self.sim, self.out = plan, sim, out
        self.runs = []
        self.incs = []
        self.ckpts = []
        self.violations = []
        self.inc = None
        self.evals = {}
        self.bad_model = sim.bad_model
        self.props = {}

    def fail(self, prop, kind, msg):
        self.violations.append((prop, kind, msg))


def props_for(cfg):
    """Proposal cycles handed to CPNest: the defaults, counted when the plan asks for it."""
    if cfg.get("solo"):                           # one of the default proposals alone
        import cpnest.proposal as P

        def one():
            if not cfg.get("nslice"):
                return P.ProposalCycle([getattr(P, cfg["solo"])()], [1.0])
            c = P.EnsembleSliceProposalCycle()
            c.proposals, c.weights = [getattr(P, cfg["solo"])()], [1.0]
            c.set_cycle()
            return c
        return dict(mhs=one, hmc=P.HamiltonianProposalCycle, sli=one)
    if not cfg.get("count_proposals"):
        return None
    from cpnest.proposal import DefaultProposalCycle, HamiltonianProposalCycle, EnsembleSliceProposalCycle

    class CountedMH(DefaultProposalCycle):
        calls = 0

        def get_sample(self, old, **kw):
            self.calls += 1
            return super().get_sample(old, **kw)

    class CountedSlice(EnsembleSliceProposalCycle):
        calls = 0

        def get_direction(self, *a, **kw):
            self.calls += 1
            return super().get_direction(*a, **kw)
    g = globals()
    for c in (CountedMH, CountedSlice):
        c.__module__ = __name__
        c.__qualname__ = c.__name__
        seams.forkable(c)
        g[c.__name__] = c
    if cfg.get("seed", 1) % 2:
        return [CountedMH, HamiltonianProposalCycle, CountedSlice]
    return dict(mhs=CountedMH, hmc=HamiltonianProposalCycle, sli=CountedSlice)


def make(cfg, inc, out):
    import cpnest
    m = models.build(cfg["model"])
    m.inc = inc
    kw = dict(nlive=cfg["nlive"], poolsize=cfg.get("poolsize", 30), maxmcmc=cfg.get("maxmcmc", 10), output=out,
              nthreads=cfg["nthreads"], nhamiltonian=cfg.get("nhmc", 0), nslice=cfg.get("nslice", 0),
              seed=cfg.get("seed", 1), verbose=cfg.get("verbose", 0), resume=cfg.get("resume", False),
              prior_sampling=cfg.get("prior", False))
    if cfg.get("interval") is not None:
        kw["periodic_checkpoint_interval"] = cfg["interval"]
    pr = props_for(cfg)
    if pr:
        kw["proposals"] = pr
    return cpnest.CPNest(m, **kw)


def tag(cp, sim, rv):
    m = cp.manager
    m.logLmin.tag, m.logLmax.tag, m.checkpoint_flag.tag = "logLmin", "logLmax", "flag"
    for i, (c, p) in enumerate(zip(m.consumer_pipes, m.producer_pipes)):
        c.tag, p.tag = ("c", i), ("w", i)
        c.run = p.run = rv
    m.logLmin.run = m.logLmax.run = rv


def single(ctx, cfg, out):
    """The program under simulation: construct, run, look at the results."""
    def main():
        sim = ctx.sim
        outs = cfg.get("runs", 1)
        cps = []
        for r in range(outs):
            c = dict(cfg, **(cfg["each"][r] if "each" in cfg else {}))
            o = out if outs == 1 else os.path.join(out, "run%d" % r)
            cp = make(c, sim.inc, o)
            rv = RunView(sim.inc, c, cp, o)
            rv.clock0 = sim.clock_of(sim.cur)
            tag(cp, sim, rv)
            rv.start = ns_state(cp.NS)
            rv.hist0 = len(sim.hist)
            ctx.runs.append(rv)
            cps.append((cp, rv))
            if cfg.get("order") != "construct-first":
                do(ctx, cp, rv)
        if cfg.get("order") == "construct-first":
            for cp, rv in cps:
                do(ctx, cp, rv)
        if cfg.get("combine"):
            from cpnest import nest2pos
            data = [cp.nested_samples for cp, rv in cps]
            ns = [rv.cfg["nlive"] for cp, rv in cps]
            ctx.combined = (data, nest2pos.draw_posterior_many(data, ns), nest2pos.draw_N_posterior_many(data, ns, 200))
    return main


def do(ctx, cp, rv):
    sim = ctx.sim
    lg = logging.getLogger("cpnest")
    before = list(lg.handlers)
    sim.good = rv_good(rv)
    rv.t_run = sim.now
    rv.hist_run = len(sim.hist)
    sim.current_run = rv
    try:
        cp.run()
    finally:
        if sim.stop is None:
            rv.handlers = [h for h in lg.handlers if h not in before]
    p = sim.cur
    p.pending = []
    rv.finished = True
    rv.hist1 = len(sim.hist)
    rv.files_at_end = oracles.read_files(rv)
    rv.end = ns_state(cp.NS)
    rv.results = oracles.results_of(cp, rv)


def rv_good(rv):
    from .refmodel import Ref
    N = rv.cfg["nlive"]
    count = [0]

    def good(obj):
        p = point_of(obj)
        if p is None:
            return False
        t = raw(rv.cp.manager.logLmin)
        if t == INF:
            return False
        ok = p.logL > t
        if t == -INF:
            count[0] += 1
            return ok and count[0] <= 4 * N
        return ok
    return good


def on_ckpt(ctx, name):
    """A file of the output directory was closed after writing, or renamed into place: is it a complete checkpoint?"""
    sim = ctx.sim
    path = os.path.join(ctx.out, name)
    if sim.cur is not None and sim.cur.idx > 0 and name.endswith((".dat", ".txt")):
        with seams._open(path) as f:
            ctx.worker_files[(sim.inc, sim.cur.idx, name)] = f.read()
    if not name.endswith(".pkl"):
        return
    ctx.ckpts.append(parse_ckpt(ctx, path, name))


def parse_ckpt(ctx, path, name):
    sim = ctx.sim
    d = dict(step=sim.step, inc=sim.inc, name=name, proc=sim.cur.idx if sim.cur else -1, now=sim.now,
             clock=sim.now + sim.clock_off, ok=False, kind=None, hist=len(sim.hist))
    try:
        with seams._open(path, "rb") as f:
            data = f.read()
        import io
        cur, sim.cur = sim.cur, None
        try:
            o = pickle.loads(data)
        finally:
            sim.cur = cur
    except Exception as e:
        d["error"] = "%s: %s" % (type(e).__name__, e)
        return d
    d["ok"] = True
    if hasattr(o, "nested_samples"):
        d["kind"] = "ns"
        d["nested"] = len(o.nested_samples)
        d["initialised"] = bool(getattr(o, "initialised", True))
        d["iteration"] = o.iteration
    elif hasattr(o, "evolution_points"):
        d["kind"] = "sampler"
        d["type"] = type(o).__name__
        d["initialised"] = bool(getattr(o, "initialised", True))
        d["state"] = sampler_state(o)
        own = getattr(sim.cur, "obj", None)       # what it was in the process that wrote it
        if type(own) is type(o) and own is not o:
            try:
                d["state"] = sampler_state(own)
            except AttributeError:
                pass
    return d


def sampler_state(o):
    e = getattr(o.proposal, "ensemble", None)
    g = lambda n: getattr(o, n, None)
    st = dict(pool=[key(p) for p in o.evolution_points], Nmcmc=g("Nmcmc"), Nmcmc_exact=g("Nmcmc_exact"),
              acc=g("mcmc_accepted"), cnt=g("mcmc_counter"), nsamples=len(getattr(o, "samples", ())),
              mu=g("mu"), init=bool(getattr(o, "initialised", len(o.evolution_points))))
    if e is not None:
        st["ensemble"] = [key(p) for p in e]
    pr = getattr(o.proposal, "proposals", None)
    if pr is not None:
        st["dt"] = [[float(getattr(p, n, 0.0)) for n in ("scale", "dt", "base_dt", "L", "base_L")] for p in pr]
    return st


def run_plan(plan):
    """-> dict (JSON-able)"""
    top = tempfile.mkdtemp(prefix="sim", dir=plan.get("scratch", "/dev/shm"))
    try:
        out = os.path.join(top, "d0")
        os.mkdir(out)
        return _run_plan(plan, out)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def folder(d):
    r = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            with seams._open(os.path.join(p, f), "rb") as fh:
                r[os.path.relpath(os.path.join(p, f), d)] = fh.read()
    return r


def _run_plan(plan, out):
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    sim = core.Sim(plan, out)
    ctx = Ctx(plan, sim, out)
    core.SIM = sim
    sim.ckpt_hook = lambda name: on_ckpt(ctx, name)
    oracles.attach(ctx)
    base = plan["cfg"]
    for n, inc in enumerate(plan["incs"]):
        cfg = dict(base, **inc.get("cfg", {}))
        if cfg.get("wipe"):
            for f in os.listdir(out):
                os.remove(os.path.join(out, f))
        left = None
        if cfg.get("moved") and n:                # the output folder has been moved, or a copy of it is used
            new = os.path.join(os.path.dirname(out), "d%d" % n)
            if cfg["moved"] == "copy":
                shutil.copytree(out, new)
                left = (out, folder(out))
            else:
                os.rename(out, new)
            out = ctx.out = sim.outdir = new
        h0 = len(sim.hist)
        lg = logging.getLogger("cpnest")
        for h in list(lg.handlers):
            lg.removeHandler(h)
        instr.watch(False)
        stop = sim.run(single(ctx, cfg, out), inc.get("faults", []), inc["sched"])
        p0 = sim.procs[0]
        cur = sim.current_run if sim.current_run in ctx.runs and sim.current_run.inc == n else None
        rec = dict(cur_cfg=cur.cfg if cur else cfg, cur_h0=cur.hist_run if cur else h0, stop=stop, msg=sim.stop_msg, state=sim.stop_state, stop_like=sim.stop_like, stop_wait=sim.stop_wait, early=sim.early_signal, sig_nops=[q.sig_nops for q in sim.procs[1:]],
                   refused=[(c is getattr(p0, "wait_tag", None), o) for c, o in sim.refused], main=p0.main_exit if p0.main_exit is not None else p0.exitcode,
                   exc=p0.exc, tb=p0.tb, cfg=cfg, h0=h0, h1=len(sim.hist), now=sim.now,
                   fired=[f for f in inc.get("faults", [])], fired_n=dict(sim.fired),
                   workers=[(q.name, q.exitcode, q.exc, type(q.obj).__name__, q.tb) for q in sim.procs[1:]],
                   step=sim.step, armed_left=len(sim.faults), signal=sim.inc_signal, disk=sim.inc_disk,
                   handlers=[type(h).__name__ for h in lg.handlers],
                   ckpt_n=len(ctx.ckpts), procs=[q.idx for q in sim.procs[1:]], tbs=[q.tb for q in sim.procs[1:] if q.tb])
        ctx.incs.append(rec)
        if left is not None and folder(left[0]) != left[1]:
            now = folder(left[0])
            rec["written_elsewhere"] = sorted(f for f in set(now) | set(left[1]) if now.get(f) != left[1].get(f))
        for r in ctx.runs:
            if r.inc == n:
                r.clock_at = sim.pclock
                r.closed_step = next((e[0] for e in sim.hist[r.hist0:] if e[3] == "set" and e[4].tag == "logLmin"
                                      and e[6] == INF and getattr(e[4], "run", None) is r), None)
        rec["disk_after"] = {f: parse_ckpt(ctx, os.path.join(out, f), f) for f in sorted(os.listdir(out))
                             if f.endswith(".pkl")} if stop != "finished" or sim.inc_signal or plan.get("parse_all") else {}
        if plan.get("stop_on_normal", True) and stop == "finished" and not sim.inc_signal and p0.exitcode == 0 \
                and not inc.get("go_on"):
            break
    core.SIM = None
    instr.watch(False)
    oracles.judge(ctx)
    return dict(violations=ctx.violations, hash=sim.hash.hexdigest(), events=sim.nevents, steps=sim.step,
                like=sim.total_like, sim_time=sim.now - sim.t_start, fired=sim.fired, probes=sim.probe,
                sched=sim.switch_sig.hexdigest(), nswitch=sim.nswitch,
                incs=[dict({k: r[k] for k in ("stop", "msg", "main", "exc", "fired_n")}, workers=[w[:4] for w in r["workers"]])
                      for r in ctx.incs],
                switches=sim.switch_log if plan.get("want_switches") else None,
                tb=[r["tb"] for r in ctx.incs if r["tb"]] + [t for r in ctx.incs for t in r["tbs"]],
                full=sim.full, stop_like=sim.stop_like, stats=ctx.props, trace=sim.trace[-60:] if ctx.violations else None)
