"""Plans: what is run, under which schedule, with which faults.  A plan is a pure function of (property, seed, index)."""
import functools
import json
import random

SIGS = [15, 14, 3, 2, 10, 12]


def sched(r, faults=False):
    k = r.choice(["rand", "rand", "timed", "timed", "pct"])
    s = dict(kind=k, salt=r.randrange(10 ** 6))
    if k == "rand":
        s["p"] = r.choice([0.02, 0.1, 0.3, 0.5, 0.8])
        s["parent"] = r.choice([0, 0.4, 0.7])
    elif k == "timed":
        s["speeds"] = [round(10 ** r.uniform(-1, 1), 3) for _ in range(6)]
        s["like_cost"] = 10 ** r.uniform(-5, -2)
    else:
        s["quantum"] = r.choice([40, 200, 600])
        s["change"] = r.choice([0.002, 0.02])
        s["parent_bias"] = r.choice([-1.5, 0, 0, 1.5])
    return s


def model(r, holes=True, ties=True, hmc=False):
    dim = r.choice([1, 2, 2, 2, 3]) if not hmc else r.choice([2, 2, 3])
    m = dict(dim=dim, width=round(r.uniform(3, 7), 2))
    if r.random() < 0.3:
        m["aniso"] = True
    if r.random() < 0.35:
        m["psig"] = round(r.uniform(1.2, 3), 2)
    if r.random() < 0.3:
        m["mu"] = round(r.uniform(-0.8, 0.8), 2)
    if holes and not hmc and r.random() < 0.35:
        m["hole"] = r.choice(["inf", "nan"])
        m["hole_at"] = round(r.uniform(0.8, 2.0), 2)
    if holes and not hmc and r.random() < 0.25:
        m["phole"] = True
        m["phole_at"] = round(r.uniform(1.0, 2.5), 2)
    if ties and not hmc and r.random() < 0.25:
        m["step"] = r.choice([0.05, 0.3])
    if not hmc and r.random() < 0.15:
        m["off"] = r.choice([-2500.0, -700.0, 500.0])         # likelihoods that overflow or underflow when exponentiated
    if not hmc and r.random() < 0.15:
        m["shift"], m["scale"] = r.choice([(1.0e6, 1.0), (0.0, 1.0e-7), (-3.0e4, 200.0), (1.7e9, 1.0e-2), (0.0, 1.0e12)])
    if not hmc and r.random() < 0.04:
        m["dim"] = r.choice([5, 6])
    return m


def config(r, mix="any", holes=True, ties=True, small=False, threads=None):
    n = threads or (r.choice([1, 2, 2, 3, 3, 4]) if r.random() < 0.94 else r.choice([5, 6, 8]))
    ns = nh = 0
    if mix == "any":
        ns = r.choice([0, 0, 0, 1, n])
        if n - ns > 0 and r.random() < 0.04:
            nh = 1
    elif mix == "mh":
        pass
    elif mix == "hmc":
        nh = r.randint(1, n)
        ns = r.randint(0, n - nh)
    elif mix == "mixed":
        n = max(n, 3)
        nh, ns = 1, 1
    ns = min(ns, n)
    N = r.choice([n + 1, n + 2, 10, 17, 24, 30]) if not small else r.choice([8, 10, 13, 16])
    N = max(N, n + 1)
    c = dict(model=model(r, holes, ties, nh > 0), nlive=N, poolsize=r.choice([16, 20, 31]), maxmcmc=r.choice([12, 12, 20, 25]),
             nthreads=n, seed=r.randrange(1, 10 ** 6), verbose=0)
    if nh:
        c["nhmc"] = nh
        c["poolsize"] = 40
        c["maxmcmc"] = r.choice([6, 8, 12])
        c["nlive"] = max(c["nthreads"] + 1, r.choice([10, 12]))
        c["model"] = dict(dim=2, width=round(r.uniform(3, 4), 2))
    if ns:
        c["nslice"] = ns
    if r.random() < 0.15:
        c["verbose"] = r.choice([1, 1, 2, 3])
    if not small and not nh and r.random() < 0.015:
        c.update(nlive=100, poolsize=100, maxmcmc=r.choice([50, 100]))      # CPNest's defaults
    return c


def limits(c):
    if c.get("nhmc"):
        return dict(like=30000, jumps=40000000)
    if c["nthreads"] > 4:                         # more samplers go on while one is stalled
        return dict(like=300000, ops=1200000, jumps=30000000)
    return {}


def stall(r, c):
    # `dur` is in units of one likelihood evaluation (schedules with a clock), `ops` in steps of the simulator
    return dict(kind="stall", proc=r.randrange(0, c["nthreads"] + 1), dur=r.choice([50, 500, 3000 if c["nthreads"] < 5 else 1000]), ops=r.choice([300, 3000, 10000]) if not c.get("nhmc") else 200,
                at=dict(ev=r.choice(["recv", "recv", "psend"]), n=r.randrange(1, 8 * c["nlive"]), op=r.randrange(4)))


def fresh(prop, r, mix="any", stalls=True, **kw):
    """One run without interruption."""
    c = config(r, mix, **kw)
    f = []
    if stalls and r.random() < 0.4:
        f = [stall(r, c) for _ in range(r.choice([1, 1, 3]))]
    return dict(prop=prop, cfg=c, incs=[dict(sched=sched(r), faults=f)], limits=limits(c))


def expected_recvs(c):
    return int(c["nlive"] * (1 + 5.0)) + 10


def signal_fault(r, c, where=None, scope=None):
    n = c["nthreads"]
    where = where or r.choice(["loop", "loop", "loop", "loop", "init", "start", "end"])
    f = dict(kind="signal", sig=r.choice(SIGS), scope=scope or r.choice(["parent", "group"]))
    if where == "loop":
        f["at"] = dict(ev="recv", n=c["nlive"] + r.randrange(1, 4 * c["nlive"]), op=r.randrange(12))
    elif where == "init":
        f["at"] = dict(ev="recv", n=r.randrange(1, c["nlive"] + 2), op=r.randrange(12))
    elif where == "start":
        f["at"] = dict(ev="fork", n=r.randrange(1, n + 1), op=r.randrange(6))
    else:
        f["at"] = dict(ev="none", n=r.randrange(1, n + 1), op=r.randrange(20))
    if r.random() < 0.7:
        f["ins"] = r.choice([1, 2, 3]) if r.random() < 0.2 else r.randrange(1, 120)
    f["wins"] = [r.choice([0, r.randrange(1, 400)]) for _ in range(4)]
    return f


def kill_fault(r, c):
    return dict(kind="kill", at=dict(ev=r.choice(["recv", "recv", "recv", "psend"]),
                                     n=c["nlive"] + r.randrange(1, 4 * c["nlive"]), op=r.randrange(12)))


def fop_fault(r, c, lo=1, hi=60):
    k = r.choice(["kill", "kill", "enospc", "eio", "signal"])
    f = dict(kind=k, at=dict(ev="fop", n=r.randrange(lo, hi)))
    if k == "signal":
        f.update(sig=r.choice(SIGS), scope=r.choice(["parent", "group"]), ins=r.randrange(0, 60),
                 wins=[r.randrange(0, 60) for _ in range(4)])
    else:
        f["frac"] = r.choice([0.0, 0.3, 0.9, 1.0]) if r.random() < 0.7 else r.random()
    return f


def interval_for(r, s):
    """A checkpoint interval that makes a handful of checkpoints in a run of this schedule."""
    lc = s.get("like_cost", 1e-3)
    return round(lc * 10 ** r.uniform(1.5, 3.3), 7)


MOVED = {"C11", "C13", "C14", "C17"}            # properties whose resumed runs may find their output folder moved


def interrupted(prop, r, n_int=None, mix="any", faults=("signal", "kill"), small=True, rethreads=0.3, watch=(), where=None,
                interval=0.5, scope=None, holes=True):
    """Runs interrupted by signals and crashes and resumed, until one completes."""
    c = config(r, mix, small=small, holes=holes)
    c["resume"] = True
    incs = []
    for k in range(n_int or r.choice([1, 1, 2, 3])):
        s = sched(r)
        kind = r.choice(faults)
        cf = {}
        if k and rethreads and r.random() < rethreads and not c.get("nhmc") and not c.get("nslice"):
            cf["nthreads"] = r.choice([x for x in (1, 2, 3, 4, 5) if x < c["nlive"]])
        cc = dict(c, **cf)
        if kind == "signal":
            fs = [signal_fault(r, cc, where if k == 0 else None, scope)]
            if r.random() < interval:
                cf["interval"] = interval_for(r, s)
        elif kind == "kill":
            fs = [kill_fault(r, cc)]
            cf["interval"] = interval_for(r, s)
        else:
            fs = [fop_fault(r, cc)]
            cf["interval"] = interval_for(r, s)
            if kind == "fop2":
                fs.append(fop_fault(r, cc))
        incs.append(dict(sched=s, faults=fs, cfg=cf))
    cf = {}
    if rethreads and r.random() < rethreads and not c.get("nhmc") and not c.get("nslice"):
        cf["nthreads"] = r.choice([x for x in (1, 2, 3, 4, 5) if x < c["nlive"]])
    incs.append(dict(sched=sched(r), faults=[], cfg=cf))
    if prop in MOVED and r.random() < 0.25:
        for inc in r.sample(incs[1:], r.choice([1, len(incs) - 1])):
            inc["cfg"]["moved"] = r.choice(["move", "move", "copy"])
    return dict(prop=prop, cfg=c, incs=incs, limits=limits(c), watch=list(watch))


# ------------------------------------------------------------------ per property
def c01(r):
    return fresh("C01", r) if r.random() < 0.7 else interrupted("C01", r)


def c02(r):
    return fresh("C02", r) if r.random() < 0.6 else interrupted("C02", r)


def c03(r):
    return fresh("C03", r) if r.random() < 0.7 else interrupted("C03", r)


def c04(r):
    return fresh("C04", r) if r.random() < 0.6 else interrupted("C04", r)


STAT_MODELS = [
    dict(dim=1, width=6.0),
    dict(dim=2, width=4.0, mu=0.7, psig=1.5),
    dict(dim=2, width=5.0, cost=0.6),
    dict(dim=3, width=3.0, psig=2.0, mu=0.4),
]


def c05(r):
    """Complete runs of a few models of known evidence, large enough that the answer is accurate on average."""
    g = r.randrange(8)
    m = dict(r.choice(STAT_MODELS))
    n = r.choice([1, 2, 3, 4])
    c = dict(model=m, nlive=40, poolsize=50, maxmcmc=40, nthreads=n, seed=r.randrange(1, 10 ** 6), verbose=0)
    ns = r.choice([0, 0, 0, n])
    if ns:
        c["nslice"] = ns
    if g < 2 and not ns:                          # interrupted and resumed
        c["resume"] = True
        incs = []
        for k in range(r.choice([1, 2])):
            s = sched(r)
            cf = {}
            if r.random() < 0.5:
                f = signal_fault(r, c, "loop")
            else:
                f = kill_fault(r, c)
                cf["interval"] = interval_for(r, s)
            incs.append(dict(sched=s, faults=[f], cfg=cf))
        # a run goes on with the number of live points it was started with
        incs.append(dict(sched=sched(r), faults=[], cfg=dict(nlive=r.choice([20, 70])) if r.random() < 0.5 else {}))
        p = dict(prop="C05", cfg=c, incs=incs)
        p["group"] = "interrupted"
    else:
        s = sched(r)
        p = dict(prop="C05", cfg=c, incs=[dict(sched=s, faults=[])])
        p["group"] = "slice" if ns else s["kind"]
    p["stats"] = "post"
    p["limits"] = {}
    return p


def c06(r):
    return fresh("C06", r) if r.random() < 0.75 else interrupted("C06", r)


def c07(r):
    x = r.random()
    if x < 0.04:
        p = fresh("C07", r, "hmc")
    elif x < 0.24:
        p = fresh("C07", r, "any")
        p["cfg"]["prior"] = True
    else:
        p = fresh("C07", r)
    return p


def c08(r):
    return fresh("C08", r) if r.random() < 0.75 else interrupted("C08", r)


WORKER_MODELS = [
    dict(dim=1, width=4.0, mu=0.5),
    dict(dim=2, width=4.0),
    dict(dim=2, width=4.0, mu=1.0, psig=1.5),
    dict(dim=3, width=3.0, mu=0.5, psig=1.2, aniso=True),
    dict(dim=4, width=3.0),
]
WORKER_X = [1.0, 0.5, 0.1, 0.02]                  # prior mass above the threshold


@functools.lru_cache(None)
def _worker_T(k, x):
    if x >= 1:
        return None
    from . import ideal
    return float(ideal._quantiles(json.dumps(WORKER_MODELS[k], sort_keys=True))[int(x * 1000000)])


def even(s):
    if "speeds" in s:
        s["speeds"] = [round(x ** 0.4, 3) for x in s["speeds"]]
    return s


def c09(r):
    """A real sampler process fed with exact draws at a fixed threshold (sim/worker.py)."""
    k = r.randrange(len(WORKER_MODELS))
    x = r.choice(WORKER_X)
    n = r.choice([1, 1, 2])
    typ = r.choice(["mh", "mh", "sl"])
    c = dict(model=dict(WORKER_MODELS[k]), nlive=20, poolsize=r.choice([20, 40]), maxmcmc=r.choice([20, 30]), nthreads=n,
             seed=r.randrange(1, 10 ** 6), verbose=0)
    if typ == "sl":
        c["nslice"] = n
    solo = r.choice([None, None, "EnsembleWalk", "EnsembleStretch", "DifferentialEvolution", "EnsembleEigenVector"]) if typ == "mh" else \
        r.choice([None, None, None, "EnsembleSliceDifferential", "EnsembleSliceGaussian", "EnsembleSliceCorrelatedGaussian"])
    if solo:
        c["solo"] = solo
    return dict(prop="C09", kind="worker", cfg=c, T=_worker_T(k, x), burn=c["poolsize"], measure=120, X=x, m=k, typ=typ,
                incs=[dict(sched=even(sched(r)), faults=[])], limits={}, group="%s-m%d-x%g" % (typ, k, x))


def c10(r):
    return interrupted("C10", r, n_int=r.choice([1, 1, 1, 2]), faults=("signal",), interval=0.3,
                       mix=r.choice(["any"] * 16 + ["mixed", "mixed", "mixed", "hmc"]))


def c11(r):
    if r.random() < 0.12:
        p = interrupted("C11", r, n_int=1)
        p["incs"][-1]["cfg"]["resume"] = False
        return p
    return interrupted("C11", r)


def c12(r):
    return interrupted("C12", r, faults=("fop", "fop", "fop2", "kill"), n_int=r.choice([1, 2, 2, 3]))


def c13(r):
    x = r.random()
    if x < 0.6:
        p = fresh("C13", r, small=r.random() < 0.5)
        s = p["incs"][0]["sched"]
        p["cfg"]["interval"] = interval_for(r, s)
        if r.random() < 0.3:
            p["incs"][0]["faults"].append(dict(kind="clock", delta=p["cfg"]["interval"] * r.uniform(0.1, 5),
                                               at=dict(ev="recv", n=r.randrange(1, 4 * p["cfg"]["nlive"]), op=r.randrange(5))))
    elif x < 0.75:
        p = fresh("C13", r)
    else:
        p = interrupted("C13", r, faults=("kill",), n_int=r.choice([1, 2]))
    p["watch"] = ["periodic"]
    if r.random() < 0.2 and not p["cfg"].get("nhmc"):
        p["cfg"]["resume"] = True
    return p


def c14(r):
    return interrupted("C14", r, faults=("signal", "kill"), mix=r.choice(["mixed", "mixed", "any", "any", "any", "any", "any", "hmc"]), rethreads=0,
                       where="loop", watch=["resume"], holes=False)


def c15(r):
    p = fresh("C15", r, stalls=False) if r.random() < 0.5 else \
        interrupted("C15", r, rethreads=0, where="loop", n_int=r.choice([1, 2]))
    c = p["cfg"]
    c["nthreads"] = max(2, c["nthreads"])
    c["nlive"] = max(c["nlive"], c["nthreads"] + 1)
    p["watch"] = ["streams", "points"]
    p["draw_log"] = 400
    return p


def c16(r):
    p = fresh("C16", r) if r.random() < 0.65 else interrupted("C16", r)
    p["cfg"]["verbose"] = r.choice([0, 0, 2])
    return p


def killed_before(p, r):
    """The folder holds what an earlier run left when it was killed; the run itself is a new one."""
    c = p["cfg"]
    f = dict(kind="kill", at=dict(ev="recv", n=r.randrange(1, c["nlive"] if c.get("prior") else 3 * c["nlive"]), op=r.randrange(12)))
    p["incs"] = [dict(sched=sched(r), faults=[f], cfg=dict(resume=False, seed=c["seed"] + 1)),
                 dict(p["incs"][-1], cfg=dict(resume=False))]


def c17(r):
    if r.random() < 0.2:
        p = interrupted("C17", r)
    else:
        p = fresh("C17", r)
    if r.random() < 0.15:
        killed_before(p, r)
    p["cfg"]["verbose"] = r.choice([0, 1, 2, 3, 3, 3])
    if p["cfg"]["verbose"] == 3:
        p["cfg"]["poolsize"] = max(p["cfg"]["poolsize"], 20)
    return p


PRIOR_MODELS = [dict(dim=1, width=5.0), dict(dim=2, width=4.0, mu=0.5), dict(dim=2, width=4.0, psig=1.6, mu=0.5),
                dict(dim=3, width=3.0, phole=True, phole_at=1.0), dict(dim=1, width=4.0, psig=1.5, mu=0.7),
                dict(dim=2, width=4.0, psig=0.7)]


def c18(r):
    p = fresh("C18", r)
    p["cfg"]["prior"] = True
    p["cfg"]["verbose"] = r.choice([0, 0, 1, 2, 3])
    if r.random() < 0.5 and not p["cfg"].get("nhmc"):     # large enough for the distribution to be judged
        p["cfg"].update(model=dict(r.choice(PRIOR_MODELS)), maxmcmc=60, poolsize=40, nlive=max(p["cfg"]["nlive"], 20))
        p["cfg"]["verbose"] = r.choice([0, 0, 3])
        p["stats"] = "prior"
    if r.random() < 0.08:
        killed_before(p, r)
    return p


def c19(r):
    p = fresh("C19", r, mix=r.choice(["any", "mh"])) if r.random() < 0.7 else \
        interrupted("C19", r, faults=("kill",), mix="mh")
    p["watch"] = ["work", "pool"]
    p["cfg"]["count_proposals"] = True
    return p


def c20(r):
    k = r.choice([2, 2, 3])
    if r.random() < 0.75:
        p = fresh("C20", r, small=True, stalls=False)
        c = p["cfg"]
        c["runs"] = k
        c["order"] = r.choice(["construct-first", "sequential"])
        c["each"] = []
        for j in range(k):
            d = config(r, small=True)
            d.pop("runs", None)
            c["each"].append(dict(d, nhmc=d.get("nhmc", 0), nslice=d.get("nslice", 0)))
        p["limits"] = {}
        for d in c["each"] + [c]:
            p["limits"] = limits(d) or p["limits"]
        return p
    return interrupted("C20", r, faults=("signal",), n_int=1)


def c21(r):
    """Several complete runs of one model in one process (with likelihoods scaled differently), then combined."""
    m = dict(r.choice(STAT_MODELS[:2]))
    k = r.choice([2, 2, 3])
    c = dict(model=m, nlive=40, poolsize=30, maxmcmc=25, nthreads=1, seed=1, verbose=0, runs=k, order="sequential", combine=True)
    c["each"] = [dict(model=dict(m, off=r.choice([0.0, 0.0, 0.7, -1.2])), nlive=r.choice([20, 30, 50]), nthreads=r.choice([1, 2, 3]),
                      seed=r.randrange(1, 10 ** 6), verbose=0) for j in range(k)]
    return dict(prop="C21", cfg=c, incs=[dict(sched=sched(r), faults=[])], limits={}, stats="combine",
                group="%druns" % k)


def make(prop, seed, i):
    r = random.Random("%s/%s/%s" % (prop, seed, i))
    p = globals()[prop.lower()](r)
    p["seed"] = r.getrandbits(60)
    p["index"] = i
    p.setdefault("wall", 120)
    return p
