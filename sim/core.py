"""The simulator: one operating-system process in which simulated processes run one at a time.

Each simulated process is a real thread that is parked except while the scheduler lets it run.  All nondeterminism comes
from `Sim.rng*`, which are seeded from the plan, so that a run is a pure function of (plan, code under test)."""
import hashlib
import random
import signal as _signal
import sys
import threading
import time as _time
import traceback
import _thread

import numpy as np

REAL = {"time": _time.time, "monotonic": _time.monotonic, "perf_counter": _time.perf_counter, "sleep": _time.sleep}
SIM = None            # the running simulation, or None (then every seam behaves as the original)


def current():
    return SIM.cur if SIM is not None else None


class Proc:
    def __init__(self, sim, idx, fn, parent=None, daemon=False, name=None):
        self.sim, self.idx, self.fn, self.parent, self.daemon = sim, idx, fn, parent, daemon
        self.pid = sim.next_pid
        sim.next_pid += 1
        self.name = name or "p%d" % idx
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.state = "ready"          # ready, blocked, done
        self.cond = None              # blocked: callable -> None (not yet) or time from which it can go on
        self.why = None
        self.t = sim.now
        self.owed = 0.0
        self.nops = self.nlike = self.nprior = 0
        self.recvs = self.sends = self.nones = 0
        self.mute = 0
        self.sig_nops = None
        self.jumped = False
        self.stalled_until = -1       # step
        self.pending = []             # [signal, countdown of instructions]
        self.exitcode = None
        self.exc = None
        self.ran_since = 0
        self.last_sched = 0
        if parent is None:
            self.handlers = {}
            self.np = np.random.RandomState(sim.entropy() & 0xffffffff)
        else:
            self.handlers = dict(parent.handlers)
            self.np = np.random.RandomState(0)
            self.np.set_state(parent.np.get_state())      # fork: numpy's generator is inherited ...
        self.rng = random.Random(sim.entropy())           # ... and the random module reseeds itself
        self.speed = sim.policy.speed(self)
        self.children = []
        self.draws = self.npdraws = 0
        self.draw_log = []
        self.np_log = []
        self.evals = None
        self.obj = None
        self.main_exit = None
        self.in_exit = False
        self.tb = None

    def wake_time(self):
        """None if it cannot run, else the time from which it can."""
        if self.state == "done":
            return None
        if self.state == "blocked":
            if self.pending:
                return self.t
            w = self.cond()
            return None if w is None else max(self.t, w)
        return self.t

    def __repr__(self):
        return self.name


class Policy:
    """Who runs next.  `choose` gets the running process (or None if it cannot go on) and returns the next one."""

    def __init__(self, spec, seed):
        self.spec = spec
        self.kind = spec["kind"]
        self.rng = random.Random("sched/%s/%s" % (seed, spec.get("salt", 0)))
        base = spec.get("base", spec)             # a script keeps the clock of the policy it was recorded under
        self.base = base
        self.timed = base["kind"] == "timed"
        self.prio = {}
        self.script = {int(k): v for k, v in spec.get("switches", {}).items()} if self.kind == "script" else None

    def speed(self, proc):
        if self.timed:
            s = self.base.get("speeds")
            base = s[(proc.idx - 1) % len(s)] if s and proc.idx > 0 else 1.0
            return base
        return 1.0

    def like_cost(self, proc):
        c = self.base.get("like_cost", 1e-3)
        if self.timed:
            return c * proc.speed * (0.5 + self.rng.random())
        return c

    def choose(self, sim, p, ok):
        k = self.kind
        if k == "rand":
            if ok and self.rng.random() >= self.spec.get("p", 0.3):
                return p
            r = [q for q in sim.procs if q.stalled_until <= sim.step and q.wake_time() is not None]
            if not ok and p in r:
                r.remove(p)
            if r and r[0].idx == 0 and self.rng.random() < self.spec.get("parent", 0):
                return r[0]
            return self.rng.choice(r) if r else None
        if k == "timed":
            best, bt = None, None
            for q in sim.procs:
                if q is p and not ok:
                    continue
                w = q.wake_time()
                if w is not None and (bt is None or w < bt):
                    best, bt = q, w
            return best
        if k == "pct":
            quantum = self.spec.get("quantum", 400)
            change = self.spec.get("change", 0.002)
            if ok and p in self.prio:
                if sim.step - p.ran_since > quantum or self.rng.random() < change:
                    self.prio[p] = min(self.prio.values()) - 1
                    p.ran_since = sim.step
            best, bp = None, None
            for q in sim.procs:
                if q.stalled_until > sim.step or (q is p and not ok) or q.wake_time() is None:
                    continue
                if q not in self.prio:
                    self.prio[q] = self.rng.random() + (self.spec.get("parent_bias", 0) if q.idx == 0 else 0)
                if q is not p and sim.step - q.last_sched > 40 * quantum:       # fairness
                    return q
                if bp is None or self.prio[q] > bp:
                    best, bp = q, self.prio[q]
            return best
        if k == "script":                                        # explicit switches, found by the minimiser
            want = self.script.get(sim.ndec)
            if want is not None:
                for q in sim.procs:
                    if q.idx == want and q.wake_time() is not None and not (q is p and not ok):
                        return q
            if ok and sim.step - p.ran_since <= self.spec.get("quantum", 300):
                return p
            order = sorted(sim.procs, key=lambda q: (q.last_sched, q.idx))
            for q in order:
                if (ok or q is not p) and q.wake_time() is not None:
                    return q
            return None
        raise ValueError(k)


class Sim:
    TRACE = 400

    def __init__(self, plan, outdir):
        self.plan, self.outdir = plan, outdir
        seed = plan["seed"]
        self.ent = random.Random("entropy/%s" % seed)
        self.next_pid = 1000
        self.nswitch = 0
        self.now = 1.7e9
        self.clock_off = 0.0
        self.step = 0
        self.hash = hashlib.blake2b(digest_size=12)
        self.trace = []
        self.full = [] if plan.get("full_log") else None
        self.nevents = 0
        self.switch_log = []
        self.fired = {}
        self.fop = 0
        self.total_like = 0
        self.max_like = -np.inf
        self.probe = {}
        self.ctrl = _thread.allocate_lock()
        self.ctrl.acquire()
        self.stop = None
        self.dead = False
        self.procs = []
        self.all_procs = []
        self.cur = None
        self.limits = dict(ops=400000, like=100000, total_like=6000000, jumps=10000000)
        self.limits.update(plan.get("limits", {}))
        self.switch_sig = hashlib.blake2b(digest_size=8)
        self.hist = []                # what the oracles read
        self.polls = []
        self.bad_model = []
        self.want_polls = "periodic" in plan.get("watch", ())
        self.clock_reads = 0
        self.draw_log = plan.get("draw_log", 0)
        self.pipes = []
        self.values = []
        self.good = None              # callable(point): would the nested sampler take it?
        self.ckpt_hook = None
        self.eval_hook = None
        self.fork_hook = None
        self.signal_time = self.kill_time = None
        self.inc = -1
        self.t_start = self.now

    # ---- randomness of the environment
    def entropy(self):
        return self.ent.getrandbits(64)

    # ---- one incarnation of the program (from start to exit, or to a crash)
    def run(self, main, faults, sched):
        self.inc += 1
        self.policy = Policy(sched, "%s/%d" % (self.plan["seed"], self.inc))
        self.procs = []
        self.stop = None
        self.faults = [dict(f) for f in faults]
        self.stop_msg = None
        self.stop_state = None
        self.stop_like = []
        self.stop_wait = None
        self.inc_signal = None        # set when a signal fault fired in this incarnation
        self.inc_disk = False
        self.early_signal = False
        self.disk_dead = None
        self.pclock = []
        self.in_switch = {}           # decision number -> process switched to
        self.ndec = 0
        self.switch_log.append(self.in_switch)
        self.current_run = None
        self.progress_like = self.progress_step = 0
        self.inc_step0 = self.step
        self.ctrl = _thread.allocate_lock()
        self.ctrl.acquire()
        self.jumps = 0
        self.fop = 0
        self.logvals = []
        self.progress()
        p = Proc(self, 0, main, name="main")
        self.procs.append(p)
        self.all_procs.append(p)
        self.cur = p
        self._start(p)
        self._activate(p)
        p.sem.release()
        self.ctrl.acquire()
        self.cur = None
        return self.stop

    def _start(self, p):
        th = threading.Thread(target=self._body, args=(p,), daemon=True)
        p.thread = th
        th.start()

    def _body(self, p):
        p.sem.acquire()
        try:
            p.fn()
            p.exitcode = 0
        except SystemExit as e:
            c = e.code
            p.exitcode = 0 if c is None else (c if isinstance(c, int) else 1)
        except BaseException as e:
            p.exitcode = 1
            p.exc = "%s: %s" % (type(e).__name__, e)
            p.tb = traceback.format_exc()
        self.note("exit", p.exitcode)
        if self.inc_disk and p.exitcode == 1 and self.disk_dead is None:
            self.disk_dead = self.step
        if p.idx == 0 or p.children:
            # multiprocessing joins non-daemonic children when the interpreter exits
            p.pending = []
            p.in_exit = True
            p.main_exit = p.exitcode
            self.progress()
            if self.inc_disk and p.exitcode == 1:
                self.halt("disk-error")       # a disk error may end the program; whoever runs it kills what is left
            kids = [c for c in p.children if not c.daemon]
            self.block(lambda: p.t if all(c.state == "done" for c in kids) else None, "exit-join")
        p.state = "done"
        self.progress()
        if all(q.state == "done" for q in self.procs):
            return self.halt("finished", park=False)
        self._go(p, False)          # never comes back

    def fork(self, fn, daemon=False, name=None):
        par = self.cur
        p = Proc(self, len(self.procs), fn, par, daemon, name)
        p.t = self.now
        p.last_sched = self.step
        self.procs.append(p)
        self.all_procs.append(p)
        par.children.append(p)
        self._start(p)
        return p

    # ---- scheduling
    def _activate(self, q):
        if self.policy.timed:
            self.now = max(self.now, q.t)
        self.cur = q
        q.ran_since = q.last_sched = self.step
        self.nswitch += 1
        np.random.mtrand._rand = q.np

    def _go(self, p, ok):
        """Hands over to the next process; returns when p is scheduled again (at once if p itself is chosen)."""
        self.ndec += 1
        q = self.policy.choose(self, p, ok)
        if q is None and any(x.stalled_until > self.step for x in self.procs):
            for x in self.procs:
                x.stalled_until = -1
            q = self.policy.choose(self, p, ok)
        if q is None:
            if ok:
                q = p
            else:
                w = [(x.wake_time(), x.idx, x) for x in self.procs if x.wake_time() is not None]
                if not w:
                    return self.halt("deadlock")
                q = min(w)[2]
        w = q.wake_time()
        if w is not None and w > q.t:
            q.t = w
        if not self.policy.timed and q.t > self.now:
            self.now = q.t
        if q is not p:
            self.in_switch[self.ndec] = q.idx
            self.switch_sig.update(b"%d," % q.idx)
            self._activate(q)
            q.sem.release()
            p.sem.acquire()
        elif self.policy.timed:
            self.now = max(self.now, q.t)

    def op(self, kind, *detail):
        """A point at which the running process can be preempted, signalled or killed."""
        p = self.cur
        p.nops += 1
        p.mute = 0
        self.step += 1
        cost = 2e-6 + p.owed
        p.owed = 0.0
        if self.policy.timed:
            p.t = max(p.t, self.now) + cost
        else:
            self.now += cost
            p.t = self.now
        self.log(p, kind, detail)
        if self.step - self.progress_step > self.limits["ops"]:
            self.halt("no-progress", "no progress in %d steps" % self.limits["ops"])
        if self.inc_disk and self.disk_dead is not None and self.step > self.disk_dead + 3000:
            self.halt("disk-error")           # a process has died of it; whoever runs the program kills what is left
        if self.want_polls:
            if p.idx == 0:
                self.pclock.append((self.step, self.clock_of(p)))
            elif kind == "poll":
                self.polls.append((self.step, self.inc, p.idx, "poll", self.clock_of(p)))
        if self.faults:
            self.fire("op")
        if kind == "compute" and p in self.policy.prio:
            p.ran_since = -10 ** 9                # a quantum is over
        self._go(p, True)
        if p.pending:
            self.deliver(p)

    def block(self, cond, why):
        p = self.cur
        while True:
            w = cond()
            if w is not None and w <= max(self.now, p.t):
                return
            p.state, p.cond, p.why = "blocked", cond, why
            self._go(p, False)
            p.state, p.cond, p.why = "ready", None, None
            if p.pending:
                self.deliver(p, blocked=True)

    def halt(self, reason, msg=None, park=True):
        if self.stop is None:
            if self.inc_disk and reason in ("deadlock", "no-progress"):
                reason = "disk-error"
            self.stop = reason
            self.stop_msg = msg
            self.stop_state = [(q.name, q.state, q.why, q.exitcode) for q in self.procs]
            self.stop_like = [(type(q.obj).__name__, q.nlike - getattr(q, "nlike0", 0), q.state) for q in self.procs]
            if self.procs[0].why == "recv":
                c = self.procs[0].wait_tag
                mine = [j for j, q in enumerate(self.procs) if j and getattr(q, "run", None) is getattr(c, "run", None)]
                if isinstance(getattr(c, "tag", None), tuple) and c.tag[1] < len(mine):
                    self.stop_wait = mine[c.tag[1]]
            self.ctrl.release()
        if park:
            lk = _thread.allocate_lock()
            lk.acquire()
            lk.acquire()              # for ever: the simulated machine is gone

    def progress(self):
        self.progress_step = self.step
        self.progress_like = self.total_like
        self.jumps = 0
        for q in self.procs:
            q.nlike0 = q.nlike
        self.refused = []

    # ---- called by the seams
    def created(self, kind, obj):
        if kind == "pipe":
            self.pipes.append(obj)
        else:
            self.values.append(obj)

    def rec(self, *ev):
        self.hist.append((self.step, self.inc, self.cur.idx if self.cur else -1) + ev)

    def value_set(self, v, old, new):
        self.rec("set", v, old, new, self.max_like)
        if new != old and not (new != new):
            if v.tag == "logLmin" or v.tag is None:
                self.progress()

    def on_send(self, conn, obj):
        p = self.cur
        if obj is None or isinstance(obj, str):
            self.rec("send", conn, obj)
            p.nones += 1
            self.progress()
            if p.idx == 0 and self.faults:
                self.fire("none", p.nones)
        else:
            self.rec("send", conn, obj)
            if p.idx != 0 and self.send_hook:
                self.send_hook(p, conn, obj)
            if p.idx == 0 and self.faults:
                self.fire("psend", p.sends)

    def on_recv(self, conn, obj):
        p = self.cur
        pr = getattr(getattr(p.obj, "proposal", None), "calls", None) if p.idx else None
        self.rec("recv", conn, obj, self.max_like, pr)
        if p.idx == 0:
            if self.good is not None and self.good(obj):
                self.progress()
            else:
                self.refused.append((conn, obj))
            if self.faults:
                self.fire("recv", p.recvs)
            elif p.recvs > self.limits.get("recvs", 10**9):
                self.halt("no-end", "still sampling after %d deliveries" % p.recvs)

    send_hook = None

    def on_fork(self, p, owner):
        self.rec("fork", p, owner)
        self.progress()
        if self.fork_hook:
            self.fork_hook(p, owner)
        if self.faults:
            self.fire("fork", len(self.procs) - 1)

    def file_op(self, kind, name, torn=None):
        self.fop += 1
        self.op("file", kind, name)
        self.rec("file", kind, name)
        if self.faults:
            self.fire("fop", self.fop, torn=torn, anyproc=True)

    # ---- log
    def log(self, p, kind, detail):
        s = "%d %s %s" % (p.idx, kind, detail)
        self.hash.update(s.encode())
        self.nevents += 1
        if self.full is not None:
            self.full.append(s)
        t = self.trace
        t.append((self.step, self.inc, s))
        if len(t) > 2 * self.TRACE:
            del t[:self.TRACE]

    def note(self, kind, *detail):
        self.log(self.cur, kind, detail)

    # ---- model calls
    def on_like(self, v, point=None, cost=None):
        p = self.cur
        if self.eval_hook is not None:
            self.eval_hook(p, v, point)
        p.nlike += 1
        self.total_like += 1
        p.owed += self.policy.like_cost(p) * (cost or 1.0)
        if v > self.max_like:
            self.max_like = v
        if self.total_like - self.progress_like > self.limits["like"]:
            self.halt("no-progress", "no progress in %d likelihood evaluations" % self.limits["like"])
        if self.total_like > self.limits["total_like"]:
            self.halt("budget", "likelihood budget")
        p.mute += 1
        if p.mute >= 100:                 # long computations are preempted as well
            self.op("compute")

    # ---- faults
    def fire(self, ev, n=None, anyproc=False, **kw):
        """Faults are triggered by events of the main process (or file operations), plus a number of its operations."""
        p = self.cur
        for f in list(self.faults):
            trig = f["at"]
            if f.get("_hit"):
                if p.idx != 0 and not f.get("any"):
                    continue
                if f.get("file") and ev != "fop":
                    continue
                if f["_left"] > 0:
                    f["_left"] -= 1
                    continue
                self.faults.remove(f)
                self.inject(f, **kw)
            elif trig["ev"] == ev and n is not None and n >= trig.get("n", 0):
                if p.idx != 0 and not anyproc:
                    continue
                f["_hit"] = True
                f["_left"] = trig.get("op", 0)
                if f["_left"] == 0:
                    self.faults.remove(f)
                    self.inject(f, **kw)

    def count(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def hit(self, probe):
        self.probe[probe] = self.probe.get(probe, 0) + 1

    def inject(self, f, **kw):
        k = f["kind"]
        name = k + ("-" + f["scope"] if "scope" in f else "")
        if k == "signal":
            self.count(name)
            sig = f.get("sig", 15)
            self.note("FAULT", name, sig)
            self.signal_time = self.now
            if self.inc_signal is None:
                self.inc_signal = dict(step=self.step, hist=len(self.hist), recvs=self.procs[0].recvs, sig=sig,
                                       scope=f.get("scope", "group"), now=self.now, n=0)
            self.inc_signal["n"] += 1
            for q in self.procs:
                if q.state == "done" or getattr(q, "in_exit", False):
                    continue
                if f.get("scope") == "parent" and q.idx != 0:
                    continue
                ins = f.get("ins", 0) if q.idx == 0 else f.get("wins", [0])[q.idx % len(f.get("wins", [0]))]
                self.send_signal(q, sig, ins)
        elif k == "kill":
            self.count(name)
            self.note("FAULT", name)
            self.kill_time = self.now
            if kw.get("torn") and f.get("frac"):
                kw["torn"](f["frac"])
                self.count("torn-write")
            self.halt("killed")
        elif k == "stall":
            self.count(name)
            q = self.procs[f.get("proc", 1) % len(self.procs)]
            self.note("FAULT", name, q.idx)
            if self.policy.timed:
                q.t += f.get("dur", 500) * self.policy.base.get("like_cost", 1e-3)
            else:
                q.stalled_until = self.step + f.get("ops", 2000)
        elif k == "clock":
            self.count("clock-forward" if f["delta"] > 0 else "clock-back")
            self.note("FAULT", name, f["delta"])
            self.clock_off += f["delta"]
        elif k in ("enospc", "eio"):
            self.count(name)
            self.note("FAULT", name)
            self.inc_disk = True
            if kw.get("torn") and f.get("frac"):
                kw["torn"](f["frac"])
                self.count("short-write")
            import errno
            e = errno.ENOSPC if k == "enospc" else errno.EIO
            raise OSError(e, "simulated disk error")
        else:
            raise ValueError(k)

    def send_signal(self, q, sig, ins=0):
        q.pending.append([sig, ins])

    def deliver(self, p, blocked=False):
        """Runs the handler of a pending signal, in the process's own context; counts down instructions first."""
        from . import instr
        while p.pending:
            sig, ins = p.pending[0]
            if ins > 0 and not blocked:
                instr.watch(True)
                return
            p.pending.pop(0)
            self.handle(p, sig)

    def handle(self, p, sig):
        h = p.handlers.get(sig, _signal.SIG_DFL)
        if not callable(h) and p.idx == 0 and len(self.procs) == 1:
            self.early_signal = True              # before the run has started any process
        self.note("signal", sig)
        if p.sig_nops is None:
            p.sig_nops = p.nops
        if callable(h):
            h(sig, sys._getframe(1))
        elif h == _signal.SIG_IGN:
            return
        elif sig == _signal.SIGINT:
            raise KeyboardInterrupt()
        else:
            p.exitcode = -sig
            raise SystemExit(128 + sig)

    def clock_of(self, p):
        return (p.t if self.policy.timed else self.now) + p.owed + self.clock_off
