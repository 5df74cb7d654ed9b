"""A process that has imported the code under test behind the seams and forks one child per simulated run.

stdin: one JSON plan per line; stdout: one JSON result per line."""
import json
import os
import select
import signal
import struct
import sys
import time
import traceback


def setup(pkg):
    sys.path.insert(0, pkg)
    import warnings
    warnings.filterwarnings("ignore")
    import matplotlib
    matplotlib.use("Agg")
    import numpy as np
    import numpy.lib.recfunctions
    import scipy.integrate
    import scipy.stats
    import scipy.signal
    import scipy.interpolate
    import scipy.special
    from . import seams
    seams.install()
    import cpnest
    import cpnest.cpnest
    import cpnest.NestedSampling
    import cpnest.sampler
    import cpnest.proposal
    import cpnest.model
    import cpnest.nest2pos
    import cpnest.utils
    if not os.path.abspath(cpnest.__file__).startswith(os.path.abspath(pkg)):
        raise SystemExit("imported the wrong cpnest: " + cpnest.__file__)
    seams.stub_plots(cpnest)
    from . import instr, scenario, worker
    mods = [m for n, m in sorted(sys.modules.items())
            if (n == "cpnest" or n.startswith("cpnest.")) and (getattr(m, "__file__", None) or "").endswith(".py")]
    instr.setup([m for m in mods if not m.__name__.endswith(".plot")])
    seams.register_forkable(mods)
    import logging
    logging.raiseExceptions = False
    import gc
    gc.collect()
    gc.freeze()
    gc.disable()


def run(plan):
    from . import scenario, worker
    if plan.get("kind") == "worker":
        return worker.run_plan(plan)
    return scenario.run_plan(plan)


def child(plan, w):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        t = time.process_time()
        res = run(plan)
        res["cpu"] = time.process_time() - t
        data = json.dumps(res).encode()
    except BaseException:
        data = json.dumps(dict(error=traceback.format_exc())).encode()
    with os.fdopen(w, "wb") as f:
        f.write(data)
        f.flush()
    os._exit(0)


def forked(plan, timeout):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        child(plan, w)
    os.close(w)
    buf = b""
    end = time.monotonic() + timeout
    while True:
        left = end - time.monotonic()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return dict(error="wall-clock limit of %g s" % timeout, timeout=True)
        if select.select([r], [], [], left)[0]:
            d = os.read(r, 1 << 20)
            if not d:
                break
            buf += d
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(buf)
    except ValueError:
        return dict(error="no result from the run")


def main():
    pkg, cpu = sys.argv[1], int(sys.argv[2])
    try:
        os.sched_setaffinity(0, {cpu})
    except OSError:
        pass
    out = os.fdopen(os.dup(1), "w")
    dn = os.open(os.devnull, os.O_WRONLY)
    if not os.environ.get("SIM_STDERR"):
        os.dup2(dn, 2)
    os.dup2(dn, 1)
    setup(pkg)
    out.write("ready\n")
    out.flush()
    for line in sys.stdin:
        plan = json.loads(line)
        res = forked(plan, plan.get("wall", 60))
        out.write(json.dumps(res) + "\n")
        out.flush()


if __name__ == "__main__":
    main()
