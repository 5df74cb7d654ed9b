"""Reference nested sampler: what the parent process must do with the samples it was given, in the order it took them."""
import math
from bisect import insort

INF = float("inf")


def key(p):
    return (tuple(p.values), p.logL, p.logP)


def logaddexp(a, b):
    if a == -INF:
        return b
    if b == -INF:
        return a
    m = max(a, b)
    return m + math.log1p(math.exp(-abs(a - b)))


def log1mexp(t):
    """log(1-exp(t)), t<0"""
    return math.log1p(-math.exp(t))


class Ref:
    """State of the reference: live points (sorted by logL), consumed samples, evidence bookkeeping."""

    def __init__(self, nlive):
        self.N = nlive
        self.live = []                # (logL, seq, key), sorted
        self.seq = 0
        self.started = False
        self.nested = []
        self.batches = []             # (threshold, n)
        self.ranks = []               # (lo, hi) of admissible insertion ranks
        self.iteration = 0
        self.logZ, self.logw, self.info = -INF, 0.0, 0.0
        self.snaps = []
        self.left = 0                 # replacements still owed in the current batch
        self.T = -INF
        self.init_rejected = 0
        self.rejected = 0
        self.run_T = -INF

    def snapshot(self, step, now):
        s = dict(nested=len(self.nested), live=list(self.live), batches=len(self.batches), ranks=len(self.ranks),
                 iteration=self.iteration, logZ=self.logZ, logw=self.logw, info=self.info, step=step, now=now,
                 T=self.T)
        self.snaps.append(s)
        return s

    def restore(self, s, step=0, now=0):
        self.live = list(s["live"])
        del self.nested[s["nested"]:]
        del self.batches[s["batches"]:]
        del self.ranks[s["ranks"]:]
        self.iteration, self.logZ, self.logw, self.info = s["iteration"], s["logZ"], s["logw"], s["info"]
        self.T = s["T"]
        self.left = 0
        self.started = True
        # snapshots later than this one are undone
        i = self.snaps.index(s)
        del self.snaps[i + 1:]

    def fresh(self):
        n = self.N
        self.__init__(n)

    # ---- one delivered sample
    def init_point(self, k, step, now):
        """during initialisation; returns True if it becomes a live point"""
        logL, logP = k[1], k[2]
        if logL != logL or logL == -INF or logP == -INF or logP != logP:
            self.init_rejected += 1
            return False
        self._insert(k)
        if len(self.live) == self.N:
            self.started = True
            self.snapshot(step, now)
        return True

    def _insert(self, k):
        self.seq += 1
        insort(self.live, (k[1], self.seq, k))

    def begin_batch(self, n):
        gone = self.live[:n]
        self.T = gone[-1][0]
        self._increment(self.T, n)
        self.nested.extend(g[2] for g in gone)
        del self.live[:n]
        self.batches.append((self.T, n))
        self.left = n
        self.gone = gone

    def candidate(self, k, step, now):
        logL = k[1]
        if not logL > self.T:
            self.rejected += 1
            return False
        m = len(self.live)
        less = sum(1 for x in self.live if x[0] < logL)
        leq = sum(1 for x in self.live if x[0] <= logL)
        self.ranks.append((less / m, leq / m) if m else (0.0, 1.0))
        self._insert(k)
        self.left -= 1
        self.iteration += 1
        if self.left == 0:
            self.snapshot(step, now)
        return True

    def _increment(self, logL, n):
        logt = -n / self.N
        Wt = self.logw + logL + log1mexp(logt)
        old = self.logZ
        self.logZ = logaddexp(old, Wt)
        if math.isfinite(old) and math.isfinite(self.logZ) and math.isfinite(logL):
            self.info = math.exp(Wt - self.logZ) * logL + math.exp(old - self.logZ) * (self.info + old) - self.logZ
        self.logw += logt

    def condition(self, lmax, logw=None):
        w = self.logw if logw is None else logw
        if self.logZ == -INF:
            return INF
        return logaddexp(self.logZ, lmax + w) - self.logZ

    # ---- end of the run
    def final(self):
        """chain of logL, chain of keys, trapezoidal evidence, information"""
        logLs = [-INF] + [t for t, n in self.batches]
        vols = [0.0]
        w = 0.0
        for t, n in self.batches:
            w += -n / self.N
            vols.append(w)
        logZ, info = self.logZ, self.info
        m = len(self.live)
        for i, (l, _, k) in enumerate(self.live):
            t = -1.0 / (self.N - i)
            Wt = w + l + log1mexp(t)
            old = logZ
            logZ = logaddexp(old, Wt)
            if math.isfinite(old) and math.isfinite(logZ) and math.isfinite(l):
                info = math.exp(Wt - logZ) * l + math.exp(old - logZ) * (info + old) - logZ
            w += t
            logLs.append(l)
            vols.append(w)
        tot = -INF
        for a, b, x, y in zip(logLs, logLs[1:], vols, vols[1:]):
            f = logaddexp(a, b) - math.log(2)
            tot = logaddexp(tot, f + x + log1mexp(y - x))
        return dict(chain=self.nested + [x[2] for x in self.live], logZ=tot, info=info, logLs=logLs, vols=vols,
                    rect=logZ)
