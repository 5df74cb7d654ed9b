"""An ideal nested sampler: the same bookkeeping, fed with independent exact draws.  Gives the distribution of the reported
log-evidence and information that correct samplers would lead to (including the approximation of batched replacement)."""
import functools
import json
import math

import numpy as np


def draws(spec, n, rng):
    """Exact draws from the prior of a model of sim/models.py, and their log-likelihoods."""
    dim, w, mu, psig = spec.get("dim", 2), spec.get("width", 5.0), spec.get("mu", 0.0), spec.get("psig", 0.0)
    xs, ll = [], np.zeros(n)
    for i in range(dim):
        lo, hi = (-w * (1 + i), w * (1.5 + i)) if spec.get("aniso") else (-w, w)
        sigma = spec.get("sigma", 1.0) * (1 + (0.5 * i if spec.get("aniso") else 0))
        g = (np.arange(20001) + 0.5) / 20001 * (hi - lo) + lo
        d = np.exp(-0.5 * g * g / psig ** 2) if psig else np.ones_like(g)
        if i == 0 and spec.get("phole"):
            d = np.where(g < -spec.get("phole_at", 2.0), 0, d)
        if i == 0 and spec.get("hole"):
            d = np.where(g > spec.get("hole_at", 1.0), 0, d)
        c = np.cumsum(d)
        x = np.interp(rng.random_sample(n), (c - 0.5 * d) / c[-1], g)
        xs.append(x)
        ll += -math.log(sigma) - 0.5 * math.log(2 * math.pi) - 0.5 * ((x - mu) / sigma) ** 2
    return np.array(xs), ll


def lae(a, b):
    return np.logaddexp(a, b)


def l1mexp(t):
    return np.log1p(-np.exp(t))


@functools.lru_cache(None)
def _quantiles(js):
    rng = np.random.RandomState(12345)
    xs, ll = draws(json.loads(js), 1000000, rng)
    return np.sort(ll)[::-1]


def run(spec, N, n, tol=0.1, reps=1500, seed=7):
    return _run(json.dumps(spec, sort_keys=True), N, n, tol, reps, seed)


@functools.lru_cache(None)
def _run(js, N, n, tol, reps, seed):
    """-> dict(logZ=array, info=array) of `reps` ideal runs"""
    q = _quantiles(js)
    M = len(q)
    rng = np.random.RandomState(seed)

    def L(X):
        return np.interp(X * M, np.arange(M) + 0.5, q)
    live = -np.sort(-rng.random_sample((reps, N)), axis=1)        # X from large (worst) to small
    logZ = np.full(reps, -np.inf)
    rect = np.full(reps, -np.inf)
    info = np.zeros(reps)
    w = np.zeros(reps)
    lastL = np.full(reps, -np.inf)
    done = np.zeros(reps, bool)

    def inc(sel, l, t):
        W = w[sel] + l + l1mexp(t)
        old = rect[sel]
        new = lae(old, W)
        with np.errstate(all="ignore"):
            i2 = np.exp(W - new) * l + np.exp(old - new) * (info[sel] + old) - new
        info[sel] = np.where(np.isfinite(old), i2, info[sel])
        rect[sel] = new
        f = lae(lastL[sel], l) - math.log(2)
        logZ[sel] = lae(logZ[sel], f + w[sel] + l1mexp(t))
        w[sel] += t
        lastL[sel] = l
    while not done.all():
        sel = np.nonzero(~done)[0]
        Xs = live[sel, n - 1]
        inc(sel, L(Xs), -n / N)
        new = rng.random_sample((len(sel), n)) * Xs[:, None]
        live[sel] = -np.sort(-np.concatenate([live[sel][:, n:], new], axis=1), axis=1)
        top = L(live[sel, -1])
        done[sel] = lae(rect[sel], top + w[sel]) - rect[sel] <= tol
    for i in range(N):
        inc(np.arange(reps), L(live[:, i]), -1.0 / (N - i))
    return dict(logZ=logZ, info=info)
