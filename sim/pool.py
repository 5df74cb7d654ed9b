"""Runs many plans on all cores, in fresh processes."""
import json
import os
import queue
import subprocess
import sys
import threading
import time

from . import build

VERIF = build.VERIF


class Pool:
    def __init__(self, n=None, hashseed="0", pkg=None):
        self.pkg = pkg or build.build()
        cpus = sorted(os.sched_getaffinity(0))
        self.n = n or len(cpus)
        self.procs = []
        env = dict(os.environ, PYTHONHASHSEED=hashseed, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
                   PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg")
        for i in range(self.n):
            p = subprocess.Popen([build.PY, "-m", "sim.zygote", self.pkg, str(cpus[i % len(cpus)])], cwd=VERIF, env=env,
                                 stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
            self.procs.append(p)
        for p in self.procs:
            if p.stdout.readline().strip() != "ready":
                raise SystemExit("the simulator does not start (the code under test cannot be imported?)")

    def map(self, plans, on_result, deadline=None, stop=None):
        """plans: iterable; on_result(plan, result) is called in the caller's thread order of completion."""
        it = iter(plans)
        lock = threading.Lock()
        out = queue.Queue()
        halt = threading.Event()

        def work(p):
            while not halt.is_set():
                with lock:
                    if deadline is not None and time.monotonic() > deadline:
                        break
                    try:
                        plan = next(it)
                    except StopIteration:
                        break
                try:
                    p.stdin.write(json.dumps(plan) + "\n")
                    p.stdin.flush()
                    line = p.stdout.readline()
                    res = json.loads(line)
                except (ValueError, OSError) as e:
                    res = dict(error="the simulator process is gone: %r" % e)
                    out.put((plan, res))
                    break
                out.put((plan, res))
            out.put(None)
        ths = [threading.Thread(target=work, args=(p,), daemon=True) for p in self.procs]
        for t in ths:
            t.start()
        left = len(ths)
        while left:
            x = out.get()
            if x is None:
                left -= 1
                continue
            on_result(*x)
            if stop is not None and stop():
                halt.set()
        for t in ths:
            t.join()

    def one(self, plan):
        r = []
        self.map([plan], lambda p, x: r.append(x))
        return r[0]

    def close(self):
        for p in self.procs:
            try:
                p.stdin.close()
            except OSError:
                pass
        for p in self.procs:
            p.wait()
