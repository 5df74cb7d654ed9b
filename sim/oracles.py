"""What each property means over the recorded history of a run."""
import logging
import math
import os
from collections import Counter

import numpy as np

from . import models
from .refmodel import Ref, key

INF = float("inf")
TOL = 0.1             # the documented default of the stopping tolerance; CPNest offers no other
MH, SL, HMC = "MetropolisHastingsSampler", "SliceSampler", "HamiltonianMonteCarloSampler"


def point_of(obj):
    if hasattr(obj, "logL"):
        return obj
    if isinstance(obj, (tuple, list)):
        for x in obj:
            if hasattr(x, "logL"):
                return x
    return None


# ------------------------------------------------------------------ recording
def attach(ctx):
    sim = ctx.sim
    want = set(ctx.plan.get("watch", ()))
    ctx.worker_files = {}

    def fork_hook(p, owner):
        from .scenario import sampler_state
        p.kind = type(owner).__name__ if owner is not None else None
        p.run = sim.current_run
        order = [q for q in sim.procs[1:] if q.kind == p.kind and q.run is p.run]
        p.ordinal = len(order) - 1
        if "resume" in want and owner is not None:
            try:
                p.at_fork = sampler_state(owner)
            except AttributeError:
                p.at_fork = None
        if "work" in want and owner is not None:
            p.evals = 0
        p.np_log, p.draw_log = [], []
        p.npdraws = p.draws = 0
        p.points = set()
        p.last_req = None
    sim.fork_hook = fork_hook

    def eval_hook(p, v, point):
        if "model" in want and point is not None and p.idx > 0:
            pass
        if "streams" in want and p.idx > 0 and p.recvs == 0 and len(p.points) < 4000:
            p.points.add(tuple(point.values))
    if "streams" in want:
        sim.eval_hook = eval_hook

    def send_hook(p, conn, obj):
        pt = point_of(obj)
        if pt is None:
            return
        o = p.obj
        e = getattr(o, "evolution_points", None)
        pr = getattr(o, "proposal", None)
        sim.rec("answer", conn, obj, p.nlike, len(e) if e is not None else None, getattr(pr, "calls", None))
    if "work" in want:
        sim.send_hook = send_hook


def read_files(rv):
    from . import seams
    d = {}
    for f in sorted(os.listdir(rv.out)):
        if f.endswith((".txt", ".dat")):
            with seams._open(os.path.join(rv.out, f)) as fh:
                d[f] = fh.read()
    return d


def results_of(cp, rv):
    r = {}
    for n in ("nested_samples", "posterior_samples", "prior_samples", "mcmc_samples"):
        v = getattr(cp, n, None)
        r[n] = np.array(v) if isinstance(v, np.ndarray) else v
        if isinstance(v, np.ma.MaskedArray):
            r[n] = np.array(v.filled(np.nan))
    r["logZ"] = cp.NS.logZ
    r["state_logZ"] = cp.NS.state.logZ
    r["info"] = cp.NS.state.info
    return r


# ------------------------------------------------------------------ judging
def same(a, b, tol=1e-9):
    if a == b or (a != a and b != b):
        return True
    try:
        return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
    except TypeError:
        return False


def judge(ctx):
    sim, plan = ctx.sim, ctx.plan
    ctx.stats = {}
    prop = plan["prop"]
    refs = {}
    ctx.batches = ctx.accepted = ctx.rejected = 0
    for i, rec in enumerate(ctx.incs):
        runs = [r for r in ctx.runs if r.inc == i]
        judge_end(ctx, i, rec, runs, prop)
        for k, rv in enumerate(runs):
            ref = refs.get(k)
            if ref is None:
                ref = refs[k] = Ref(rv.cfg["nlive"])
            judge_start(ctx, i, rec, rv, ref)
            replay(ctx, i, rec, rv, ref)
            if rv.finished:
                judge_results(ctx, i, rec, rv, ref)
        if rec["stop"] != "finished" or rec["signal"]:
            judge_disk(ctx, i, rec)
        judge_signal(ctx, i, rec, runs, refs)
        if rec.get("written_elsewhere"):
            ctx.fail("C11", "elsewhere", "a run resumed from a copy of its output folder wrote to the original folder: %s"
                     % rec["written_elsewhere"])
    judge_sets(ctx)
    judge_answers(ctx)
    judge_periodic(ctx)
    judge_samplers(ctx)
    judge_streams(ctx)
    ctx.props.update(batches=ctx.batches, accepted=ctx.accepted, rejected=ctx.rejected, ckpts=len(ctx.ckpts),
                     ckpts_ok=sum(1 for c in ctx.ckpts if c["ok"]), incs=len(ctx.incs),
                     resumed=sum(1 for r in ctx.runs if getattr(r, "resumed", False)))
    last = [r for r in ctx.runs if r.finished]
    judge_combined(ctx)
    if plan.get("stats") == "combine":
        return
    if plan.get("stats") and last:
        r = last[-1]
        ps = r.results["posterior_samples"]
        ctx.props["logZ"] = float(r.results["logZ"]) if r.results["logZ"] is not None else None
        ctx.props["info"] = float(r.results["info"])
        if isinstance(ps, np.ndarray) and plan["stats"] != "Z":
            ctx.props["nlive"], ctx.props["nthreads"] = r.end["nlive"], r.cfg["nthreads"]
            if ps.dtype.names and "logL" in ps.dtype.names:
                ctx.props["post_logL"] = [float(x) for x in np.ravel(ps["logL"])]
                ctx.props["chain_logL"] = [k[1] for k in r.end["nested"]]
            ctx.props["post"] = [[float(x) for x in np.ravel(ps[n])] for n in r.cp.user.names]
        if r.cfg.get("prior"):
            ctx.props["nested"] = [[k[0][j] for k in r.end["nested"]] for j in range(len(r.cp.user.names))]
            pp = r.results["prior_samples"]
            if pp is not None:
                ctx.props["prior"] = [[float(x) for x in np.ravel(pp[n])] for n in r.cp.user.names]


def judge_combined(ctx):
    """Posterior samples drawn from several runs together."""
    c = getattr(ctx, "combined", None)
    if c is None:
        return
    data, res, resN = c
    names = data[0].dtype.names
    row = lambda a: [tuple(float(x) for x in v) for v in a[list(names)]]
    src = [Counter(row(np.ravel(d))) for d in data]
    for what, r in (("", res), ("N", resN)):
        if getattr(r, "dtype", None) is None or set(r.dtype.names or ()) != set(names):
            ctx.fail("C21", "form", "the combined samples do not have the columns of the runs: %s" % (getattr(r, "dtype", None),))
            return
        got = Counter(row(np.ravel(r)))
        extra = got - sum(src, Counter()) if not what else {k: n for k, n in got.items() if not any(k in d for d in src)}
        if extra:
            ctx.fail("C21", "foreign", "%d combined samples that no run has%s: first %s"
                     % (sum(extra.values()), ", or used twice" if not what else "", next(iter(extra))))
        ctx.props["counts" + what] = [sum(min(got[k], d[k]) if not what else got[k] for k in d) for d in src]
        ctx.props["post" + what] = [[float(x) for x in np.ravel(r[k])] for k in ctx.runs[0].cp.user.names]
    if abs(len(np.ravel(resN)) - 200) > len(data):
        ctx.fail("C21", "number", "200 combined samples were asked for, %d were given" % len(np.ravel(resN)))
    ctx.props["logZs"] = [float(r.results["logZ"]) for r in ctx.runs]


def fault_kinds(rec):
    return {f["kind"] for f in rec["fired"]}


def judge_end(ctx, i, rec, runs, prop):
    """How the incarnation ended."""
    sig, disk = rec["signal"], rec["disk"]
    why = None
    done = all(r.finished for r in runs) and len(runs) == rec["cfg"].get("runs", 1)
    if rec["stop"] in ("killed", "disk-error"):
        if rec["stop"] == "disk-error" and rec["main"] not in (1, None):
            pass
        return
    tag = ""
    if rec["stop"] == "finished":
        if sig:
            if not done and rec["main"] != 130 and not disk and not rec["early"]:
                why = "signal: main process ended with status %s%s instead of 130" % (
                    rec["main"], " (%s)" % rec["exc"] if rec["exc"] else "")
                tag = "status"
        elif disk:
            return
        elif rec["main"] != 0:
            why = "main process ended with status %s: %s" % (rec["main"], rec["exc"])
            tag = "crash"
        else:
            bad = [w for w in rec["workers"] if w[1] != 0]
            if bad:
                why = "sampler processes ended with %s" % [(w[0], w[1], w[2], w[3]) for w in bad]
                tag = "worker"
    else:
        if disk:
            return
        if rec["stop"] in ("no-progress", "budget"):
            k = "hmc" if hmc_searching(ctx, rec) else "stuck" if honestly_stuck(ctx, rec) else None
            if k:
                ctx.sim.hit("inconclusive-" + k)
                return
        who = [(n, st, w, ec) for n, st, w, ec in rec["state"]]
        why = "%s%s: %s" % (rec["stop"], " (%s)" % rec["msg"] if rec["msg"] else "", who)
        if rec["exc"]:
            why += " main raised " + rec["exc"]
        tag = rec["stop"]
        bad = [w for w in rec["workers"] if w[2]]
        if bad:
            why += " samplers raised %s" % bad
    if why:
        if sig:
            multi = sig["n"] > 1
            if not multi:
                ctx.fail("C10", "end-" + tag, why)
                if prop != "C10":
                    ctx.fail(prop, "end-" + tag, why)
        else:
            ctx.fail("C07", "end-" + tag, why)
            if prop != "C07":
                ctx.fail(prop, "end-" + tag, why)
    if not rec["disk"] and (rec["stop"] == "finished"):
        left = [h for h in rec["handlers"] if "File" in h]
        if left and not (sig and sig["n"] > 1):
            ctx.fail("C20", "handler", "the run is over but a log file handler is still attached: %s" % left)
        for r in runs:
            if r.finished and any("File" in type(h).__name__ for h in getattr(r, "handlers", [])):
                ctx.fail("C20", "handler", "log file handler left attached by run()")


def honestly_stuck(ctx, rec):
    """The sampler waited for keeps answering after exhausting its MCMC limit without finding an acceptable point: its
    pool is too small for this likelihood.  That says nothing about the schedule (but must remain rare, see check.py)."""
    a = [o for w, o in rec["refused"] if w]
    mm = rec["cur_cfg"].get("maxmcmc", 10)
    return len(a) >= 20 and all(isinstance(o, tuple) and len(o) == 4 and o[2] >= 1 for o in a) and \
        sum(1 for o in a if o[1] == 0.0 and o[2] >= mm) >= 0.5 * len(a)


def hmc_searching(ctx, rec):
    """A Hamiltonian sampler that looks for an acceptable trajectory, below a finite threshold, may look for long."""
    hm = [(j, n) for j, (k, n, st) in enumerate(rec["stop_like"]) if k == HMC and st != "done"]
    # either it is what the main process waits for, or they have taken most of the computing (a process may just be waiting for a lock)
    if not any(j == rec["stop_wait"] for j, n in hm) and 2 * sum(n for j, n in hm) < sum(n for k, n, st in rec["stop_like"]):
        return False
    return not any(ev[3] == "set" and ev[4].tag == "logLmin" and ev[6] == INF for ev in ctx.sim.hist[rec["cur_h0"]:rec["h1"]])


def live_multiset(live):
    return Counter(live)


def judge_start(ctx, i, rec, rv, ref):
    st = rv.start
    resumed = bool(rv.cfg.get("resume")) and (st["nested"] or st["initialised"])
    rv.resumed = resumed
    prev = [c for c in ctx.ckpts if c["inc"] < i and c["ok"] and c["kind"] == "ns"]
    allowed = rv.cfg.get("resume") and i > 0 and rec["cfg"].get("runs", 1) == 1
    if not resumed:
        if allowed and [c for c in prev if c.get("initialised")] and not rec["cfg"].get("wipe"):
            msg = "a completed checkpoint (after %d samples) was not used" % prev[-1]["nested"]
            ctx.fail("C12", "lost", msg)
            ctx.fail("C11", "lost", msg)
        ref.fresh()
        ref.N = rv.cfg["nlive"]
        if st["nested"] or st["iteration"] or st["ranks"]:
            ctx.fail("C11", "not-fresh", "a new run does not start empty: %d samples, iteration %s"
                     % (len(st["nested"]), st["iteration"]))
        if i > 0 and not rv.cfg.get("resume") and st["logLmax"] != -INF:
            ctx.fail("C11", "not-fresh", "a new run starts with logLmax=%s" % st["logLmax"])
        return
    if not allowed:
        ctx.fail("C11", "not-fresh", "a run with resume off starts with %d samples" % len(st["nested"]))
        return
    if not prev:
        ctx.fail("C11", "resume-state", "resumed although no checkpoint was ever completed")
    # which completed iteration is this?
    lives = live_multiset(st["live"])
    best = None
    for s in reversed(ref.snaps):
        if s["nested"] == len(st["nested"]):
            best = s
            break
    bad = None
    if len(st["live"]) != ref.N:
        bad = "resumed with %d live points instead of %d" % (len(st["live"]), ref.N)
    elif best is None:
        bad = "resumed state has %d samples, which is no completed iteration" % len(st["nested"])
    elif st["nested"] != ref.nested[:best["nested"]] and (
            [k[1] for k in st["nested"]] != [k[1] for k in ref.nested[:best["nested"]]]
            or Counter(st["nested"]) - Counter(k for k in ref.nested[:best["nested"]] + [x[2] for x in best["live"]])):
        bad = "resumed samples are not those consumed so far"
    elif lives != live_multiset([x[2] for x in best["live"]]) and not st["nested"] != ref.nested[:best["nested"]]:
        bad = "resumed live points are not those of iteration %d" % best["iteration"]
    else:
        for n, a, b in (("logZ", st["logZ"], best["logZ"]), ("information", st["info"], best["info"]),
                        ("iteration", st["iteration"], best["iteration"]),
                        ("number of insertion ranks", len(st["ranks"]), best["ranks"])):
            if not same(a, b, 1e-7):
                bad = "resumed %s is %s, at that iteration it was %s" % (n, a, b)
        if bad is None and best["batches"] and st["logLmin"] != best["T"]:
            bad = "resumed threshold is %s, at that iteration it was %s" % (st["logLmin"], best["T"])
    if bad:
        ctx.fail("C11", "resume-state", bad)
        for p in ("C02", "C04", "C16", "C01"):
            if ctx.plan["prop"] == p:
                ctx.fail(p, "resume-state", bad)
    if best is None:
        # carry on from what the program has, so that later checks judge the rest by itself
        best = dict(nested=len(st["nested"]), live=sorted((k[1], j, k) for j, k in enumerate(st["live"])),
                    batches=len(ref.batches), ranks=0, iteration=st["iteration"], logZ=st["logZ"],
                    logw=ref.logw, info=st["info"], T=st["logLmin"], step=0, now=0)
        ref.snaps.append(best)
        ref.broken = True
    ref.restore(best)
    if len(ref.live) != ref.N:
        ref.broken = True
    rv.boundary = best
    if prev:
        want = prev[-1]["nested"]
        if best["nested"] < want:
            ctx.fail("C12", "fell-back", "a checkpoint with %d samples had been completed, resumed with %d"
                     % (want, best["nested"]))
        # the best likelihood that was known when it was written
        lm = -INF
        for ev in ctx.sim.hist[:prev[-1]["hist"]]:
            if ev[3] == "set" and ev[4].tag == "logLmax":
                lm_new = ev[6]
                if ev[1] == prev[-1]["inc"]:
                    lm = max(lm, lm_new)
            elif ev[3] == "recv" and ev[2] == 0:
                lm_at = lm
        try:
            if best["nested"] == want and st["logLmax"] < lm_at:
                ctx.fail("C08", "resume", "resumed with logLmax=%s; it was %s before that checkpoint"
                         % (st["logLmax"], lm_at))
        except UnboundLocalError:
            pass
    top = max([x[0] for x in ref.live] or [-INF])
    if st["logLmax"] < top:
        ctx.fail("C08", "resume", "resumed with logLmax=%s below the live point %s" % (st["logLmax"], top))
    # a crash loses a bounded amount of work
    if ctx.incs[i - 1]["stop"] == "killed" and rv.cfg.get("interval") is not None:
        pass


def replay(ctx, i, rec, rv, ref):
    """Feeds the samples the parent took to the reference, and compares what can be seen on the way."""
    sim = ctx.sim
    n = rv.cfg["nthreads"]
    prior = rv.cfg.get("prior")
    h1 = getattr(rv, "hist1", None) or rec["h1"]
    if rec["cfg"].get("runs", 1) > 1:
        h1 = rec["h1"]
    lmax = rv.start["logLmax"]
    closed = False
    rv.T_seen = []
    cond_run = 0
    last_begin = None
    lmax_begin = -INF
    rv.batch_log = []
    if getattr(ref, "broken", False):
        return
    pend = None
    for ev in sim.hist[rv.hist0:h1]:
        k = ev[3]
        if k == "set":
            v = ev[4]
            if getattr(v, "run", None) is not rv:
                continue
            new = ev[6]
            if v.tag == "logLmax":
                lmax = new
            elif v.tag == "logLmin" and ev[2] == 0:
                if new == INF:
                    closed = True
                    continue
                if prior:
                    continue
                if rec["signal"] and ev[0] >= rec["signal"]["step"] and not new > ref.T:
                    continue                   # an interrupted iteration is undone
                # what the threshold must be for the batch that begins (or is going on)
                ok = [ref.T] if ref.left else []
                if not ref.left and ref.started and len(ref.live) >= n:
                    ok.append(ref.live[n - 1][0])
                    pend = ev[0]
                    lmax_begin = lmax
                    rv.batch_log.append([ev[0], None])
                if new not in ok and ref.started:
                    ctx.fail("C01", "threshold", "the threshold was set to %r, the %d lowest live points give %s"
                             % (new, n, ok))
                if lmax < (ref.live[-1][0] if ref.live else -INF) and ref.started and not ref.left:
                    ctx.fail("C08", "behind", "logLmax=%r when a live point has logL=%r" % (lmax, ref.live[-1][0]))
        elif k == "recv" and ev[2] == 0:
            conn, obj = ev[4], ev[5]
            if getattr(conn, "run", None) is not rv or closed:
                continue
            p = point_of(obj)
            if p is None:
                continue
            kk = key(p)
            if not ref.started:
                if ref.init_point(kk, ev[0], 0):
                    ctx.accepted += 1
                continue
            if prior:
                continue
            if ref.left == 0:
                if len(ref.live) < n:
                    return
                w0 = ref.logw
                top = ref.live[-1][0]
                if rv.cfg.get("runs", 1) == 1 and cond_run >= 3:
                    ctx.fail("C06", "late", "batch %d is begun although the remaining evidence was within tolerance "
                             "for the last %d batches" % (len(ref.batches) + 1, cond_run))
                ref.begin_batch(n)
                last_begin = (ref.logZ, max(top, lmax_begin), w0)
                ctx.batches += 1
            ref_took = ref.candidate(kk, ev[0], 0)
            if ref_took:
                ctx.accepted += 1
            else:
                ctx.rejected += 1
            if ref.left == 0:
                G = ev[6]
                c = max(0.0, _lae(ref.logZ, G + w0) - ref.logZ)
                cond_run = cond_run + 1 if c <= TOL else 0
                if rv.batch_log:
                    rv.batch_log[-1][1] = ev[0]
    rv.last_begin = last_begin
    rv.lmax_end = lmax


def _lae(a, b):
    from .refmodel import logaddexp
    return logaddexp(a, b)


def judge_sets(ctx):
    """Shared best likelihood and threshold, as every process sees them."""
    sim = ctx.sim
    state = {}
    for ev in sim.hist:
        if ev[3] != "set":
            continue
        v, old, new, top = ev[4], ev[5], ev[6], ev[7]
        if v.tag == "logLmax":
            if not new >= old:
                ctx.fail("C08", "decrease", "logLmax set from %r to %r by process %d" % (old, new, ev[2]))
            if new > top and new > -INF and not (ev[2] == 0 and getattr(v, "run", None) is not None
                                                 and getattr(v.run, "resumed", False)):
                ctx.fail("C08", "above", "logLmax set to %r, but the likelihood never exceeded %r" % (new, top))
            if new == INF:
                ctx.fail("C08", "above", "logLmax set to inf")
        elif v.tag == "logLmin":
            sg = ctx.incs[ev[1]]["signal"] if ev[1] < len(ctx.incs) else None
            if not new >= old and not (sg and ev[0] >= sg["step"] and ev[2] == 0):
                ctx.fail("C01", "threshold-decrease", "threshold set from %r to %r" % (old, new))


def judge_results(ctx, i, rec, rv, ref):
    cfg = rv.cfg
    end = rv.end
    chain = end["nested"]
    logLs = [k[1] for k in chain]
    also = ["C11"] if rv.resumed or i > 0 else []

    def fail(p, kind, msg):
        ctx.fail(p, kind, msg)
        for a in also:
            ctx.fail(a, "after-" + kind, msg)
    integrity(ctx, rv, ref, fail)
    files(ctx, rv, ref, fail)
    if any(b < a or b != b for a, b in zip(logLs, logLs[1:])):
        fail("C01", "unsorted", "the chain is not in non-decreasing order of logL")
    if cfg.get("prior"):
        if len(chain) != cfg["nlive"] or len(end["live"]) != cfg["nlive"]:
            fail("C18", "count", "prior run returned %d samples for nlive=%d" % (len(chain), cfg["nlive"]))
        if Counter(chain) != Counter(x[2] for x in ref.live):
            fail("C18", "content", "prior run did not return the points drawn")
            fail("C02", "content", "prior run did not return the points drawn")
        return
    if getattr(ref, "broken", False):
        return
    fin = ref.final()
    want = fin["chain"]
    if len(chain) != len(want):
        fail("C02", "count", "%d nested samples, %d expected (%d consumed + %d live)"
             % (len(chain), len(want), len(ref.nested), len(ref.live)))
    a, b = Counter(chain), Counter(want)
    if a != b:
        extra, miss = list((a - b).elements()), list((b - a).elements())
        fail("C02", "content", "%d samples that should not be in the chain (first %s), %d missing (first %s)"
             % (len(extra), extra[:1], len(miss), miss[:1]))
    if ref.left:
        fail("C02", "owed", "the run ended with %d replacements of the last batch missing" % ref.left)
    wl = [k[1] for k in want]
    if a != b or logLs != wl:
        # did a point at or below its batch's threshold get in?
        rejected = getattr(ref, "rej", None)
        if logLs != wl and sorted(logLs) != sorted(wl):
            fail("C01", "replacement", "the chain differs from accepting exactly the candidates above the threshold")
        elif logLs != wl:
            fail("C01", "order", "points were not consumed lowest first")
    # evidence
    Z = rv.results["logZ"]
    if Z is None or not same(float(Z), fin["logZ"], 1e-8):
        fail("C04", "logZ", "reported logZ=%s, the chain integrates to %.10f" % (Z, fin["logZ"]))
    if not same(float(rv.results["state_logZ"]), fin["logZ"], 1e-8):
        fail("C04", "logZ-state", "state.logZ=%s, the chain integrates to %.10f" % (rv.results["state_logZ"], fin["logZ"]))
    H = rv.results["info"]
    if not math.isfinite(H) or not same(float(H), fin["info"], 1e-4):
        fail("C04", "info", "reported information %s, the chain gives %.8f" % (H, fin["info"]))
    # the recorded chain, when the integrator exposes it
    # stopping
    if rv.last_begin is not None:
        z, top, w = rv.last_begin
        c = _lae(z, top + w) - z
        if c > TOL * (1 + 1e-9):
            fail("C06", "early", "stopped when the remaining evidence could still change logZ by %.4f (tolerance %.2f)"
                 % (c, TOL))
    elif not ref.batches:
        fail("C06", "early", "stopped before any iteration")
    # ranks
    r = end["ranks"]
    if len(r) != len(ref.ranks):
        fail("C16", "count", "%d insertion ranks for %d replacements" % (len(r), len(ref.ranks)))
    else:
        for j, (x, (lo, hi)) in enumerate(zip(r, ref.ranks)):
            if not (lo - 1e-9 <= x <= hi + 1e-9):
                fail("C16", "rank", "insertion rank %d is %r, the point's rank was %s" % (j, x, (lo, hi)))
                break
    if cfg.get("verbose", 0) >= 2 and r:
        t = rv.files_at_end.get("insertion_indices.dat")
        if t is None:
            fail("C16", "file", "insertion_indices.dat is missing")
        elif [num(x) for x in t.split()] != [float(x) for x in r]:
            fail("C16", "file", "insertion_indices.dat does not carry the insertion ranks of the run")
    # best likelihood
    if end["logLmax"] < logLs[-1]:
        fail("C08", "end", "logLmax=%r at the end, the chain reaches %r" % (end["logLmax"], logLs[-1]))


def integrity(ctx, rv, ref, fail):
    cfg = rv.cfg
    m = models.build(cfg["model"])
    from cpnest.parameter import LivePoint
    import array
    cache = {}

    def check(k, where, live):
        if k in cache:
            return
        cache[k] = 1
        p = LivePoint(m.names, d=array.array("d", k[0]))
        x = [p[n] for n in m.names]
        if not live and k[1] == -INF and k[2] == -INF:
            return                     # marked as not evaluated: cannot become a live point
        if not m.in_bounds(p):
            return fail("C03", "bounds", "%s sample %s outside the prior" % (where, k[0]))
        lp = m.log_prior(p)
        ll = m.loglike(x)
        if not same(lp, k[2], 0) or not math.isfinite(k[2]):
            return fail("C03", "logP", "%s sample %s carries logP=%r, the model gives %r" % (where, k[0], k[2], lp))
        if not (ll == k[1] or (ll != ll and k[1] != k[1])):
            return fail("C03", "logL", "%s sample %s carries logL=%r, the model gives %r" % (where, k[0], k[1], ll))
        if live and (k[1] != k[1] or k[1] == -INF):
            return fail("C03", "live", "a live point has logL=%r" % k[1])
    for k in rv.end["nested"]:
        check(k, "nested", True)
    cache.clear()
    for k in rv.end["live"]:
        check(k, "live", True)
    for ev in ctx.sim.hist[rv.hist0:getattr(rv, "hist1", None)]:
        if ev[3] == "recv" and ev[2] == 0 and getattr(ev[4], "run", None) is rv:
            p = point_of(ev[5])
            if p is not None:
                check(key(p), "delivered", False)
    ps = rv.results["posterior_samples"]
    if isinstance(ps, np.ndarray) and ps.dtype.names:
        for row in np.ravel(ps):
            k = (tuple(float(row[n]) for n in m.names), float(row["logL"]), float(row["logPrior"]))
            check(k, "posterior", True)


def num(x):
    x = float(x)
    return "nan" if x != x else x


def rows_of(arr):
    names = arr.dtype.names
    return [tuple(num(r[n]) for n in names) for r in np.ravel(arr)]


def parse_table(text):
    lines = text.strip("\n").split("\n")
    names = lines[0].lstrip("# ").split()
    return names, [tuple(num(x) for x in l.split()) for l in lines[1:]]


def files(ctx, rv, ref, fail):
    cfg, end, res = rv.cfg, rv.end, rv.results
    names = list(rv.cp.user.names)
    fs = rv.files_at_end
    chain = end["nested"]
    cf = "chain_%d_%s.txt" % (end["nlive"], cfg.get("seed", 1))
    if rv.cfg.get("seed") is not None:
        t = fs.get(cf)
        if t is None:
            fail("C17", "chain-file", "no chain file %s among %s" % (cf, sorted(fs)))
        else:
            h, rows = parse_table(t)
            if h != names + ["logL"]:
                fail("C17", "chain-header", "header of the chain file is %s" % h)
            if len(rows) != len(chain):
                fail("C17", "chain-rows", "chain file has %d rows for %d nested samples" % (len(rows), len(chain)))
            else:
                for j, (r, k) in enumerate(zip(rows, chain)):
                    if r[:len(names)] != k[0] or not same(r[-1], k[1], 2e-6):
                        fail("C17", "chain-values", "row %d of the chain file is %s, the sample is %s" % (j, r, k))
                        break
        e = fs.get(cf + "_evidence.txt")
        if e is None:
            fail("C04", "evidence-file", "no evidence file")
        else:
            _, rows = parse_table(e)
            z, lm, h = rows[0][:3]
            if not cfg.get("prior"):
                if res["logZ"] is not None and abs(z - float(res["logZ"])) > 1e-5:
                    fail("C04", "evidence-file", "evidence file says %r, the object %r" % (z, res["logZ"]))
                if abs(h - float(res["info"])) > 1e-2:
                    fail("C04", "evidence-file", "evidence file says H=%r, the object %r" % (h, res["info"]))
            if chain and lm < max(k[1] for k in chain) - 1.1e-5:
                fail("C08", "evidence-file", "evidence file says logLmax=%r, the chain reaches %r"
                     % (lm, max(k[1] for k in chain)))
    full = names + ["logL", "logPrior"]
    want = [k[0] + (k[1], k[2]) for k in chain]
    ns = res["nested_samples"]
    if not isinstance(ns, np.ndarray) or list(ns.dtype.names or []) != full:
        fail("C17", "nested-array", "nested samples have columns %s" % (getattr(getattr(ns, "dtype", None), "names", None),))
        return
    if rows_of(ns) != want:
        fail("C17", "nested-array", "the nested-sample array does not carry the nested samples in order")
    if "nested_samples.dat" in fs:
        h, rows = parse_table(fs["nested_samples.dat"])
        if h != full or rows != want:
            fail("C17", "nested-file", "nested_samples.dat does not carry the nested samples")
    elif cfg.get("verbose", 0) >= 2:
        fail("C17", "nested-file", "nested_samples.dat is missing")
    ps = res["posterior_samples"]
    if not isinstance(ps, np.ndarray) or list(ps.dtype.names or []) != full:
        fail("C17", "posterior-array", "posterior samples have columns %s" % (getattr(getattr(ps, "dtype", None), "names", None),))
        return
    prow = rows_of(ps)
    if Counter(prow) - Counter(want):
        fail("C17", "posterior-array", "posterior samples that are no nested samples, or used twice: %d"
             % sum((Counter(prow) - Counter(want)).values()))
    if len(prow) == 0 and not cfg.get("prior"):
        fail("C17", "posterior-array", "no posterior samples")
    if cfg.get("verbose", 0) >= 2:
        if "posterior.dat" not in fs:
            fail("C17", "posterior-file", "posterior.dat is missing")
        else:
            h, rows = parse_table(fs["posterior.dat"])
            if h != full or rows != prow:
                fail("C17", "posterior-file", "posterior.dat does not carry the posterior samples")
    # what the samplers saved
    saved = {}
    for (inc, proc, name), text in ctx.worker_files.items():
        if (inc == rv.inc or cfg.get("resume") and inc < rv.inc) and text.strip():
            saved[((inc, proc), "prior" if "prior" in name else "mcmc")] = parse_table(text)
    if cfg.get("runs", 1) > 1:
        return
    v3 = cfg.get("verbose", 0) >= 3
    nslice, nall = cfg.get("nslice", 0), cfg["nthreads"]
    need = []
    if v3:
        need.append(("prior", range(1, nall + 1)))
        if not cfg.get("prior"):
            need.append(("mcmc", range(1, nall + 1)))
    elif cfg.get("prior"):
        need.append(("prior", range(1, nall - nslice + 1)))
    P = "C18" if cfg.get("prior") else "C17"
    for what, procs in need:
        arr = res[what + "_samples"]
        if not isinstance(arr, np.ndarray) or not arr.dtype.names:
            fail(P, what + "-samples", "run() returned no %s samples (%s)" % (what, type(arr).__name__))
            continue
        got = Counter(rows_of(arr))
        own = {p: t for (p, w), t in saved.items() if w == what}
        for p in procs:
            if (rv.inc, p) not in own and not (rv.inc > 0 and cfg.get("resume")):
                fail(P, what + "-saved", "sampler process %d saved no %s samples" % (p, what))
        tot = Counter()
        for p, (h, rows) in own.items():
            idx = [h.index(n) for n in arr.dtype.names] if set(arr.dtype.names) <= set(h) else None
            rr = Counter(tuple(r[j] for j in idx) for r in rows) if idx else Counter()
            tot += rr
            if not (rr & got):
                fail(P, what + "-missing", "sampler process %d contributes no %s samples" % (p[1], what))
        if what == "prior":
            if cfg.get("prior"):
                names2 = list(arr.dtype.names)
                tot += Counter(tuple(dict(zip(full, w))[n] for n in names2) for w in want)
            if got != tot:
                fail(P, "prior-samples", "%d prior samples returned, %d saved; %d do not belong, %d are missing"
                     % (sum(got.values()), sum(tot.values()), sum((got - tot).values()), sum((tot - got).values())))
        elif got - tot:
            fail(P, "mcmc-samples", "%d MCMC samples that no sampler saved" % sum((got - tot).values()))


def judge_disk(ctx, i, rec):
    """Checkpoint files found after a crash, a full disk or a checkpoint signal."""
    for f, d in rec["disk_after"].items():
        if not d["ok"]:
            ctx.fail("C12", "torn", "after %s, %s cannot be loaded: %s" % (rec["stop"], f, d.get("error")))
        elif d["kind"] == "ns":
            prev = [c for c in ctx.ckpts[:rec["ckpt_n"]] if c["ok"] and c["kind"] == "ns" and c["name"] == f]
            if prev and d["nested"] < prev[-1]["nested"] and prev[-1]["inc"] == i:
                ctx.fail("C12", "fell-back", "checkpoint on disk has %d samples, one with %d had been completed"
                         % (d["nested"], prev[-1]["nested"]))


def judge_signal(ctx, i, rec, runs, refs):
    sig = rec["signal"]
    if not sig or sig["n"] != 1 or rec["disk"] or rec["stop"] != "finished" or not runs:
        return
    rv = runs[-1]
    ref = refs.get(0)
    if rv.finished or rec["main"] != 130 or ref is None or getattr(ref, "broken", False):
        return
    # was the parent replacing points when the signal reached it?
    closed = any(ev[3] == "set" and ev[4].tag == "logLmin" and ev[6] == INF for ev in ctx.sim.hist[rv.hist0:rec["h1"]])
    began = [ev for ev in ctx.sim.hist[rv.hist0:sig["hist"]] if ev[3] == "set" and ev[4].tag == "logLmin"
             and ev[2] == 0 and ev[6] > -INF and getattr(ev[4], "run", None) is rv]
    got = [ev for ev in ctx.sim.hist[rv.hist_run:sig["hist"]] if ev[3] == "recv" and ev[2] == 0]
    in_loop = not closed and ref.started and rv.batch_log and rv.batch_log[0][0] < sig["step"]
    if in_loop and ref.left == 0 and rv.last_begin is not None:
        z, top, w = rv.last_begin
        if _lae(z, top + w) - z <= TOL * (1 + 1e-9):
            return                             # the last iteration was over
    if not in_loop:
        return
    ctx.sim.hit("signal-in-loop")
    # (the state is remembered right after an iteration: until the next one begins, the one before may still be what is saved)
    last_begun = max([b[0] for b in rv.batch_log if b[0] <= sig["step"]])
    last = [s for s in ref.snaps if s["step"] <= last_begun]
    if not last:
        return
    need = last[-1]["nested"]
    ns = [d for d in rec["disk_after"].values() if d["kind"] == "ns" and d["ok"]]
    if not ns or ns[0]["nested"] < need:
        ctx.fail("C10", "not-saved", "signal after %d samples; the checkpoint on disk has %s"
                 % (need, ns[0]["nested"] if ns else "nothing"))
    # every sampler
    saved = {(c["proc"]) for c in ctx.ckpts if c["inc"] == i and c["ok"] and c["kind"] == "sampler"
             and c["step"] >= sig["step"]}
    for w, q in enumerate(rec["workers"]):
        if w + 1 not in saved and not (q[2] and q[2].startswith("CheckPoint") and rec["sig_nops"][w] == 0):
            ctx.fail("C10", "sampler-not-saved", "%s (%s) ended without saving its state after the signal: status %s %s"
                     % (q[0], q[3], q[1], q[2] or ""))
            break


def judge_answers(ctx):
    """Work per request."""
    sim = ctx.sim
    procs = {}
    req = {}
    for ev in sim.hist:
        k = ev[3]
        if k == "fork":
            procs[(ev[1], ev[4].idx)] = ev[4]
            continue
        p = ev[2]
        if p <= 0:
            continue
        if k == "recv":
            pr = procs.get((ev[1], p))
            req[(ev[1], p)] = ev
        elif k == "answer":
            q = procs.get((ev[1], p))
            if q is None:
                continue
            conn, obj, nlike, pool, calls = ev[4:9]
            cfg = conn.run.cfg
            mm = cfg.get("maxmcmc", 10)
            if not isinstance(obj, tuple) or len(obj) < 4:
                continue
            acc, sub, jumps = obj[0], obj[1], obj[2]
            if q.kind in (MH, SL):
                lim = mm if q.kind == MH else mm + 1
                if not (1 <= jumps <= lim):
                    ctx.fail("C19", "jumps", "%s reports %s proposals for one request, the limit is %d" % (q.kind, jumps, lim))
                if not (0 <= acc <= 1 and 0 <= sub <= 1):
                    ctx.fail("C19", "acceptance", "acceptance fractions %r, %r" % (acc, sub))
                if jumps < mm and not sub > 0:
                    ctx.fail("C19", "no-accept", "a request was answered after %d proposals without acceptance" % jumps)
                r = req.get((ev[1], p))
                if calls is not None and r is not None and r[-1] is not None and isinstance(r[-1], int):
                    n = calls - r[-1]
                    # the time between request and answer may hold no more proposals than reported
                    if n != jumps:
                        ctx.fail("C19", "count", "%s made %d proposals for a request and reported %d" % (q.kind, n, jumps))
                    if n > lim:
                        ctx.fail("C19", "jumps", "%s made %d proposals for one request, the limit is %d" % (q.kind, n, lim))
            if pool is not None and pool != cfg.get("poolsize", 30) and "pool" in ctx.plan.get("watch", ()):
                ctx.fail("C19", "pool", "%s has %d points in its pool instead of %d" % (q.kind, pool, cfg.get("poolsize", 30)))


def judge_periodic(ctx):
    """Periodic checkpoints."""
    if "periodic" not in ctx.plan.get("watch", ()):
        return
    sim = ctx.sim
    for i, rec in enumerate(ctx.incs):
        runs = [r for r in ctx.runs if r.inc == i]
        T = rec["cfg"].get("interval")
        if not runs or not hasattr(runs[0], "batch_log"):
            continue
        rv = runs[0]
        mine = [c for c in ctx.ckpts if c["inc"] == i]
        if T is None:
            cut = rec["signal"]["step"] if rec["signal"] else None
            early = [c for c in mine if cut is None or c["step"] < cut]
            if early:
                ctx.fail("C13", "unasked", "%s was written without an interval or a signal" % early[0]["name"])
            continue
        ns = [c for c in mine if c["kind"] == "ns" and c["ok"]]
        lim = rec["signal"]["step"] if rec["signal"] else 10 ** 12
        times = rv.clock_at                      # (step, clock) samples of the parent
        # the latest moment the nested sampler can have taken as its last checkpoint
        last = rv.clock0
        bl = rv.batch_log
        for b, (s0, s1) in enumerate(bl):
            if s1 is None:
                break
            nxt = bl[b + 1][0] if b + 1 < len(bl) else rv.closed_step
            if nxt is None or nxt > lim:
                break
            t = clock_at(times, s1)
            done = [c for c in ns if s1 <= c["step"] <= nxt]
            if done:
                last = clock_at(times, nxt)
                # the file must hold this iteration
            elif t - last > T:
                ctx.fail("C13", "missed", "%.4f s after the last checkpoint (interval %.4f s) no checkpoint was written"
                         " at the end of iteration %d" % (t - last, T, b + 1))
                break
        # samplers
        for q in rec["procs"]:
            polls = [(e[0], e[4]) for e in sim.polls if e[1] == i and e[2] == q]
            ck = [c for c in mine if c["proc"] == q and c["ok"] and c["kind"] == "sampler"]
            if not polls:
                continue
            last = polls[0][1]
            for (s0, t0), (s1, t1) in zip(polls, polls[1:]):
                if s1 > lim:
                    break
                done = [c for c in ck if s0 <= c["step"] <= s1]
                if done:
                    last = t1
                elif t0 - last > T:
                    ctx.fail("C13", "sampler-missed", "sampler process %d did not save its state although %.4f s have "
                             "passed (interval %.4f s)" % (q, t0 - last, T))
                    break


def clock_at(times, step):
    import bisect
    j = bisect.bisect_right(times, (step, INF)) - 1
    return times[max(j, 0)][1]


def judge_samplers(ctx):
    """Each sampler's own checkpoint; resuming as itself."""
    if "resume" not in ctx.plan.get("watch", ()):
        return
    sim = ctx.sim
    saved = {}
    writer = {}
    ci = 0
    for i, rec in enumerate(ctx.incs):
        procs = {e[4].idx: e[4] for e in sim.hist[rec["h0"]:rec["h1"]] if e[3] == "fork"}
        rv = [r for r in ctx.runs if r.inc == i]
        cfg = rec["cfg"]
        nh, nsl = cfg.get("nhmc", 0), cfg.get("nslice", 0)
        want = Counter({MH: cfg["nthreads"] - nh - nsl, HMC: nh, SL: nsl})
        want = +want
        if len(procs) == cfg["nthreads"]:
            got = Counter(q.kind for q in procs.values())
            if got != want:
                ctx.fail("C14", "types", "samplers of types %s instead of %s" % (dict(got), dict(want)))
        if cfg.get("resume") and i > 0:
            for q in procs.values():
                s = saved.get((q.kind, q.ordinal))
                st = q.at_fork
                if st is None:
                    continue
                fresh = not st["init"] and not st["pool"]
                if s is None:
                    if not fresh:
                        ctx.fail("C14", "foreign", "%s %d starts from a saved state though it never saved one"
                                 % (q.kind, q.ordinal))
                    continue
                if not s["init"]:
                    continue
                if fresh:
                    ctx.fail("C14", "lost", "%s %d does not continue from its saved state" % (q.kind, q.ordinal))
                    continue
                for n in s:
                    a, b = s[n], st.get(n)
                    if a is None:
                        continue
                    if n in ("pool", "ensemble"):
                        # NaN likelihoods may be in a pool
                        a, b = repr(a), repr(b)
                    if a != b:
                        ctx.fail("C14", "state", "%s %d resumes with another %s than it saved" % (q.kind, q.ordinal, n))
                        break
        # what this incarnation saved
        names = {}
        for c in [c for c in ctx.ckpts if c["inc"] == i]:
            if c["kind"] != "sampler" or not c["ok"]:
                continue
            q = procs.get(c["proc"])
            if q is None:
                continue
            if c["type"] != q.kind:
                ctx.fail("C14", "type", "%s saved a %s" % (q.kind, c["type"]))
            o = names.setdefault(c["name"], c["proc"])
            if o != c["proc"]:
                ctx.fail("C14", "shared-file", "sampler processes %d and %d both save to %s" % (o, c["proc"], c["name"]))
            saved[(q.kind, q.ordinal)] = c["state"]
        if cfg.get("wipe"):
            saved = {}
    for inc, want, got in ctx.bad_model[:1]:
        ctx.fail("C14", "model", "in incarnation %d a likelihood of the model of incarnation %d was evaluated" % (inc, got))


def judge_streams(ctx):
    if "streams" not in ctx.plan.get("watch", ()):
        return
    sim = ctx.sim
    procs = {}
    for e in sim.hist:
        if e[3] == "fork":
            procs.setdefault(e[1], []).append(e[4])
    for inc, qs in procs.items():
        for a in range(len(qs)):
            for b in range(a):
                p, q = qs[a], qs[b]
                if p.run is not q.run:
                    continue
                if set(p.np_log) & set(q.np_log):
                    ctx.fail("C15", "numpy", "samplers %d and %d (%s, %s) draw from the same numpy stream in incarnation %d"
                             % (q.idx, p.idx, q.kind, p.kind, inc))
                if set(p.draw_log) & set(q.draw_log):
                    ctx.fail("C15", "random", "samplers %d and %d (%s, %s) draw from the same stream of the random module"
                             " in incarnation %d" % (q.idx, p.idx, q.kind, p.kind, inc))
                if "points" in ctx.plan.get("watch", ()) and inc == 0:
                    com = p.points & q.points
                    if len(com) >= 5:
                        ctx.fail("C15", "points", "samplers %d and %d evaluate the same %d points" % (q.idx, p.idx, len(com)))
