"""Models the simulated runs sample, with analytic or numerically exact evidence, prior and posterior."""
import math

import numpy as np

from . import core

INF = float("inf")
LOG2PI = math.log(2 * math.pi)


def _phi(x):
    return 0.5 * (1 + math.erf(x / math.sqrt(2)))


def build(spec):
    """spec: dict(kind, dim, ...) -> a cpnest model instance.  The class is made here because cpnest must be imported
    after the seams."""
    import cpnest.model

    class Base(cpnest.model.Model):
        inc = 0
        cost = spec.get("cost", 0)                # evaluation takes longer at larger x0

        def log_likelihood(self, p):
            v = self.loglike([p[n] for n in self.names])
            sim = core.SIM
            if sim is not None and sim.cur is not None:
                if self.inc != sim.inc:
                    sim.bad_model.append((sim.inc, sim.inc, self.inc))
                sim.on_like(v, p, math.exp(self.cost * p[self.names[0]]) if self.cost else None)
            return v

        def log_prior(self, p):
            if not self.in_bounds(p):
                return -INF
            return self.logprior([p[n] for n in self.names])

        def force(self, p):
            f = np.zeros(1, dtype={"names": p.names, "formats": ["f8"] * p.dimension})
            g = self.gradprior([p[n] for n in self.names])
            for n, x in zip(p.names, g):
                f[n] = x
            return f

        def logprior(self, x):
            return 0.0

        def gradprior(self, x):
            return [0.0] * len(x)

    dim = spec.get("dim", 2)

    class Gauss(Base):
        """Gaussian likelihood in a box; `prior`: flat or gauss (unnormalised log-density)."""

        def __init__(self):
            self.spec = dict(spec)
            self.names = ["y", "x", "b", "a", "q", "c"][:dim]        # not in alphabetical order
            w = spec.get("width", 5.0)
            if spec.get("aniso"):
                self.bounds = [[-w * (1 + i), w * (1.5 + i)] for i in range(dim)]
            else:
                self.bounds = [[-w, w] for i in range(dim)]
            self.sigma = [spec.get("sigma", 1.0) * (1 + (0.5 * i if spec.get("aniso") else 0)) for i in range(dim)]
            # coordinates the user sees: shift + scale * (those the densities are written in)
            self.shift, self.scale = spec.get("shift", 0.0), spec.get("scale", 1.0)
            self.plain = self.shift == 0.0 and self.scale == 1.0
            if not self.plain:
                self.bounds = [[self.shift + self.scale * a, self.shift + self.scale * b] for a, b in self.bounds]
            self.mu = [spec.get("mu", 0.0)] * dim
            self.psig = spec.get("psig", 0.0)
            self.norm = spec.get("off", 0.0) - sum(math.log(s) + 0.5 * LOG2PI for s in self.sigma)
            self.hole = spec.get("hole")          # "inf" or "nan": no likelihood for x0 > hole_at
            self.hole_at = spec.get("hole_at", 1.0)
            self.phole = spec.get("phole", 0)     # prior vanishes where x0 and x1 (or x0) < -phole_at
            self.phole_at = spec.get("phole_at", 2.0)
            self.step = spec.get("step", 0)

        def inner(self, x):
            return x if self.plain else [(a - self.shift) / self.scale for a in x]

        def loglike(self, x):
            x = self.inner(x)
            if self.hole and x[0] > self.hole_at:
                return -INF if self.hole == "inf" else float("nan")
            v = self.norm
            for a, m, s in zip(x, self.mu, self.sigma):
                d = (a - m) / s
                v -= 0.5 * d * d
            if self.step and v < self.norm - 1.0:
                v = math.floor(v / self.step) * self.step
            return v

        def logprior(self, x):
            x = self.inner(x)
            if self.phole and x[0] < -self.phole_at:
                return -INF
            if self.psig:
                return -0.5 * sum(a * a for a in x) / self.psig ** 2
            return 0.0

        def gradprior(self, x):
            if self.psig:
                return [a / self.psig ** 2 / self.scale for a in self.inner(x)]
            return [0.0] * len(x)

    from . import seams
    seams.forkable(Gauss)
    m = Gauss()
    Gauss.__name__ = Gauss.__qualname__ = "SimModel"
    Gauss.__module__ = __name__
    globals()["SimModel"] = Gauss                 # models at module level can be pickled
    return m


def exact(spec):
    """Numerical integration on a grid, independent of the code under test: logZ (with respect to the normalised prior),
    H, and the posterior and prior moments of each dimension."""
    dim, w, mu, psig = spec.get("dim", 2), spec.get("width", 5.0), spec.get("mu", 0.0), spec.get("psig", 0.0)
    logz, H = 0.0, 0.0
    post = []
    n = 40001
    for i in range(dim):
        lo, hi = (-w * (1 + i), w * (1.5 + i)) if spec.get("aniso") else (-w, w)
        sigma = spec.get("sigma", 1.0) * (1 + (0.5 * i if spec.get("aniso") else 0))
        x = (np.arange(n) + 0.5) / n * (hi - lo) + lo
        lp = -0.5 * x * x / psig ** 2 if psig else np.zeros(n)
        if i == 0 and spec.get("phole"):
            lp = np.where(x < -spec.get("phole_at", 2.0), -np.inf, lp)
        # where the likelihood is not finite points never become live points: the prior is cut there
        if i == 0 and spec.get("hole"):
            lp = np.where(x > spec.get("hole_at", 1.0), -np.inf, lp)
        ll = -math.log(sigma) - 0.5 * LOG2PI - 0.5 * ((x - mu) / sigma) ** 2
        q = np.exp(lp)
        q /= q.sum()
        L = np.exp(ll)
        z = (q * L).sum()
        p = q * L / z
        logz += math.log(z)
        H += (p * ll).sum() - math.log(z)
        mean, pmean = (p * x).sum(), (q * x).sum()
        post.append(dict(mean=mean, var=(p * (x - mean) ** 2).sum(), pmean=pmean, pvar=(q * (x - pmean) ** 2).sum()))
    return dict(logZ=logz + spec.get("off", 0.0), H=H, dims=post)
