"""Properties of distributions, decided over many simulated runs together: is the mean of a statistic, over runs, where an
ideal sampler has it?  A deviation counts when it exceeds NSIG standard errors (measured between runs, which are
independent) plus an allowance for the finite length of the Markov chains, which was calibrated on the unchanged code."""
import math
from collections import defaultdict

import numpy as np

from . import ideal, models

INF = float("inf")
NSIG = 5.5
MIN = 25                  # runs in a group


def compare(rows, allow, names):
    """rows: {group: [tuple of statistics per run]} -> (table, list of (kind, message))"""
    out, bad = {}, []
    for g, v in sorted(rows.items()):
        v = np.array(v, float)
        n = len(v)
        if n < MIN:
            continue
        m = v.mean(axis=0)
        se = v.std(axis=0, ddof=1) / math.sqrt(n)
        out[g] = {"n": n, **{k: "%.4f+-%.4f" % (a, b) for k, a, b in zip(names, m, se)}}
        for k, a, b, al in zip(names, m, se, allow):
            if abs(a) > NSIG * b + al:
                bad.append(("stat-" + k, "group %s, %d runs: mean of %s is off by %.4f (standard error %.4f, allowance %.3f)"
                            % (g, n, k, a, b, al)))
    return out, bad


def c05(results):
    rows, zs = defaultdict(list), []
    for p, r in results:
        s, m = r["stats"], p["cfg"]["model"]
        if s.get("logZ") is None or not s.get("post"):
            continue
        e = models.exact(m)
        i = ideal.run(m, s.get("nlive", p["cfg"]["nlive"]), p["cfg"]["nthreads"], reps=600)
        z = (s["logZ"] - i["logZ"].mean()) / i["logZ"].std()
        h = (s["info"] - i["info"].mean()) / i["info"].std()
        pm = [(np.mean(x) - d["mean"]) / math.sqrt(d["var"]) for x, d in zip(s["post"], e["dims"])]
        pv = [np.mean((np.array(x) - d["mean"]) ** 2) / d["var"] - 1 for x, d in zip(s["post"], e["dims"])]
        row = (z, h, pm[0], np.mean(pm), np.mean(pv)) + weights_z(s)
        zs.append(z)
        for g in ("all", p["group"], "model-%s" % models_name(m), "threads-%d" % p["cfg"]["nthreads"]):
            rows[g].append(row)
    table, bad = compare(rows, (0.2, 0.25, 0.04, 0.04, 0.05, 0.3, 0.15), ("logZ-error", "information-error", "posterior-mean-x0", "posterior-mean",
                                                                "posterior-variance", "posterior-weights", "posterior-final-points"))
    if len(zs) >= 100:
        sd = float(np.std(zs, ddof=1))
        table["scatter of logZ / ideal scatter"] = sd
        tol = 5.5 / math.sqrt(2 * len(zs))
        if not 0.9 - tol < sd < 1.15 + tol:
            bad.append(("stat-scatter", "the scatter of the log-evidence over %d runs is %.3f times that of correct runs" % (len(zs), sd)))
    return table, bad


def weights_z(s):
    """The log-likelihoods of the posterior samples against the weights of the chain they were drawn from."""
    c, p = np.array(s["chain_logL"]), np.array(s["post_logL"])
    N = s["nlive"]
    # one point of prior volume 1/N after another, as the posterior is defined for any number of samplers
    lx = np.arange(len(c) - N + 1) * math.log1p(-1.0 / N)
    end = lx[-1] + np.cumsum(np.log1p(-1.0 / np.arange(N, 1, -1)))
    lx = np.exp(np.concatenate([lx, end, [-np.inf]]))
    w = np.exp(c - c.max()) * (lx[:-1] - lx[1:])[:len(c)]
    q = w / w.max()                               # every point is kept with this probability
    m = (q * c).sum() / q.sum()
    f = w[-N:].sum() / w.sum()                    # how many of them are final live points
    n = np.sum(p >= c[-N])
    return (p - m).sum() / math.sqrt((q * (1 - q) * (c - m) ** 2).sum()), (n - len(p) * f) / math.sqrt(len(p) * f * (1 - f))


def c21(results):
    rows = defaultdict(list)
    for p, r in results:
        s = r["stats"]
        if not s.get("counts"):
            continue
        e = models.exact(p["cfg"]["model"])
        z = s["logZs"]
        alike = "nlive-alike" if len({x["nlive"] for x in p["cfg"]["each"]}) == 1 else "nlive-different"
        for what in ("", "N"):
            n, post = s["counts" + what], s["post" + what]
            dev = []
            for i in range(1, len(n)):
                if min(n[0], n[i]) > 0:
                    dev.append(((math.log(n[i] / n[0]) - (z[i] - z[0])), math.log(p["cfg"]["each"][i]["nlive"] / p["cfg"]["each"][0]["nlive"]),
                                z[i] - z[0]))
            if not dev or not post[0]:
                continue
            d = np.array(dev)
            pm = [(np.mean(x) - q["mean"]) / math.sqrt(q["var"]) for x, q in zip(post, e["dims"])]
            pv = [np.mean((np.array(x) - q["mean"]) ** 2) / q["var"] - 1 for x, q in zip(post, e["dims"])]
            row = ((d[:, 0]).mean(), (d[:, 0] * np.sign(d[:, 1])).mean(), (d[:, 0] * np.sign(d[:, 2])).mean(), np.mean(pm), np.mean(pv))
            for g in ("all", p["group"], alike):
                rows[g + ("-given-number" if what else "")].append(row)
    return compare(rows, (0.1, 0.1, 0.1, 0.04, 0.06), ("count-ratio", "count-ratio-by-nlive", "count-ratio-by-evidence", "posterior-mean",
                                                     "posterior-variance"))


def models_name(m):
    return "%dd%s%s%s" % (m["dim"], ("-gaussprior" + ("-narrow" if m["psig"] < 1 else "")) if m.get("psig") else "", "-cost" if m.get("cost") else "", "-cut" if m.get("phole") else "")


def c09(results):
    rows, ref = defaultdict(list), {}
    for p, r in results:
        k = (p["m"], p["X"])
        if k not in ref:
            x, ll = ideal.draws(p["cfg"]["model"], 400000, np.random.RandomState(3))
            s = ll > (-INF if p["T"] is None else p["T"])
            ref[k] = x[:, s].mean(axis=1), x[:, s].std(axis=1), np.sort(ll[s])
        mu, sd, ls = ref[k]
        for g in r["stats"]["got"]:
            if len(g) < 20:
                continue
            g = np.array(g)
            x = g[:, :-1].T
            a = (x.mean(axis=1) - mu) / sd
            b = (((x - mu[:, None]) / sd[:, None]) ** 2).mean(axis=1) - 1
            u = np.searchsorted(ls, g[:, -1]) / len(ls)
            row = (a[0], a.mean(), b.mean(), u.mean() - 0.5, (u ** 2).mean() - 1 / 3)
            solo = p["cfg"].get("solo")
            for n in (solo, solo + "-gaussprior" if p["cfg"]["model"].get("psig") else solo + "-flat") if solo else \
                    ("all", p["typ"], "%s-model-%d" % (p["typ"], p["m"]), "%s-mass-%g" % (p["typ"], p["X"])):
                rows[n].append(row)
    return compare(rows, (0.03, 0.02, 0.025, 0.012, 0.012), ("mean-x0", "mean", "variance", "likelihood-rank", "likelihood-rank-2"))


def c18(results):
    rows = defaultdict(list)
    for p, r in results:
        s = r["stats"]
        if p.get("stats") != "prior":
            continue
        e = models.exact(p["cfg"]["model"])
        for name in ("nested", "prior"):
            v = s.get(name)
            if not v or len(v[0]) < 5:
                continue
            a = [(np.mean(x) - d["pmean"]) / math.sqrt(d["pvar"]) for x, d in zip(v, e["dims"])]
            b = [np.mean((np.array(x) - d["pmean"]) ** 2) / d["pvar"] - 1 for x, d in zip(v, e["dims"])]
            kind = "slice" if p["cfg"].get("nslice") else "mh"
            for g in (name, name + "-" + kind, name + "-" + models_name(p["cfg"]["model"])):
                rows[g].append((a[0], np.mean(a), np.mean(b)))
    return compare(rows, (0.05, 0.05, 0.08), ("mean-x0", "mean", "variance"))


BY = dict(C05=c05, C09=c09, C18=c18, C21=c21)
