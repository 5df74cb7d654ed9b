"""Seams between cpnest and its environment.  `install()` must run before cpnest is imported.

Every replacement dispatches on core.SIM: outside a simulation it behaves as the original."""
import builtins
import collections
import copy
import ctypes
import errno
import io
import logging
import multiprocessing
import multiprocessing.connection
import multiprocessing.managers
import multiprocessing.sharedctypes
import multiprocessing.synchronize
import os
import pickle
import random
import signal
import sys
import time
import types

import numpy as np

from . import core

INF = float("inf")


# ------------------------------------------------------------------ fork
def _gen(x, memo):
    return x


def raw_copy(x, memo):
    """A copy of an instance's memory, whatever the class says about pickling."""
    cls = type(x)
    y = cls.__new__(cls)
    memo[id(x)] = y
    if isinstance(x, collections.deque):
        y = memo[id(x)] = cls(maxlen=x.maxlen) if cls is collections.deque else y
        for e in x:
            collections.deque.append(y, copy.deepcopy(e, memo))
    elif isinstance(x, list):
        for e in x:
            list.append(y, copy.deepcopy(e, memo))
    elif isinstance(x, dict):
        for k, v in x.items():
            dict.__setitem__(y, copy.deepcopy(k, memo), copy.deepcopy(v, memo))
    if hasattr(x, "__dict__"):
        for k, v in x.__dict__.items():
            y.__dict__[k] = copy.deepcopy(v, memo)
    return y


def forkable(cls):
    if cls not in copy._deepcopy_dispatch and not issubclass(cls, (BaseException, Shared, SimProcess, logging.Handler)) \
            and "__deepcopy__" not in cls.__dict__:
        copy._deepcopy_dispatch[cls] = raw_copy


def fork_copy(obj):
    """What a forked child sees: its own copy of everything but the shared channels."""
    copy._deepcopy_dispatch[types.GeneratorType] = _gen
    return copy.deepcopy(obj)


def register_forkable(modules):
    for m in modules:
        for v in list(vars(m).values()):
            if isinstance(v, type) and v.__module__ == m.__name__ and v.__flags__ & (1 << 9):   # heap types (Python classes)
                if "pyx" not in getattr(m, "__file__", "") and (m.__file__ or "").endswith(".py"):
                    forkable(v)


class Shared:
    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


class SimUnpicklable(Shared):
    def __reduce_ex__(self, proto):
        raise RuntimeError("%s objects should only be shared between processes through inheritance"
                           % type(self).__name__)


# ------------------------------------------------------------------ locks and shared values
class SimLock(SimUnpicklable):
    recursive = False

    def __init__(self, ctx=None):
        self.owner = None
        self.depth = 0

    def acquire(self, block=True, timeout=None):
        sim = core.SIM
        sim.op("lock")
        p = sim.cur
        if self.recursive and self.owner is p:
            self.depth += 1
            return True
        if self.owner is not None:
            if not block:
                return False
            if timeout is not None:
                end = p.t + max(0.0, timeout)
                sim.block(lambda: p.t if self.owner is None else end, "lock")
                if self.owner is not None:
                    return False
            else:
                sim.block(lambda: p.t if self.owner is None else None, "lock")
        self.owner = p
        self.depth = 1
        return True

    def release(self):
        sim = core.SIM
        if self.owner is None:
            raise ValueError("semaphore or lock released too many times")
        if self.recursive and self.owner is not sim.cur:
            raise AssertionError("attempt to release recursive lock not owned by thread")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None
        sim.op("unlock")

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class SimRLock(SimLock):
    recursive = True


class SimEvent(SimUnpicklable):
    def __init__(self):
        self.flag = False

    def is_set(self):
        core.SIM.op("event?")
        return self.flag

    def set(self):
        core.SIM.op("event!")
        self.flag = True

    def clear(self):
        core.SIM.op("event0")
        self.flag = False

    def wait(self, timeout=None):
        sim = core.SIM
        sim.op("event-wait")
        p = sim.cur
        end = None if timeout is None else p.t + timeout
        sim.block(lambda: p.t if self.flag else end, "event")
        return self.flag


class SimValue(SimUnpicklable):
    """multiprocessing.Value: each access takes the lock, and is a point of preemption."""

    def __init__(self, typecode, *args, lock=True):
        t = {"d": ctypes.c_double, "f": ctypes.c_float, "i": ctypes.c_int, "l": ctypes.c_long, "b": ctypes.c_byte,
             "c": ctypes.c_char, "I": ctypes.c_uint, "L": ctypes.c_ulong, "q": ctypes.c_longlong}.get(typecode, typecode)
        self._obj = t(*args)
        self._lock = SimRLock() if lock is True or lock is None else (lock or None)
        self.tag = None
        core.SIM.created("value", self)

    def get_lock(self):
        return self._lock

    def get_obj(self):
        return self._obj

    def acquire(self):
        return self._lock.acquire()

    def release(self):
        return self._lock.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self._lock.release()

    def _wait(self, what):
        sim = core.SIM
        sim.op(what)
        lk = self._lock
        if lk is not None and lk.owner is not None and lk.owner is not sim.cur:
            p = sim.cur
            sim.block(lambda: p.t if lk.owner is None or lk.owner is p else None, "value")

    @property
    def value(self):
        self._wait("get")
        return self._obj.value

    @value.setter
    def value(self, v):
        self._wait("set")
        old = self._obj.value
        self._obj.value = v
        core.SIM.value_set(self, old, self._obj.value)

    @property
    def raw(self):
        return self._obj.value


# ------------------------------------------------------------------ pipes
class SimConnection(SimUnpicklable):
    def __init__(self, r, w):
        self.inq, self.outq = r, w
        self.closed = False
        self.tag = None
        self.peer = None
        self.nsent = self.nrecv = 0

    def send(self, obj):
        if self.closed:
            raise OSError("handle is closed")
        sim = core.SIM
        data = pickle.dumps(obj)
        sim.op("send")
        p = sim.cur
        p.sends += 1
        self.nsent += 1
        self.outq.append((p.t if sim.policy.timed else sim.now, data, obj))
        sim.on_send(self, obj)

    def _ready(self, p):
        if not self.inq:
            return None
        return max(p.t, self.inq[0][0])

    def poll(self, timeout=0.0):
        sim = core.SIM
        sim.op("poll")
        p = sim.cur
        if timeout is None:
            sim.block(lambda: self._ready(p), "poll")
            return True
        if timeout > 0:
            end = p.t + timeout
            sim.block(lambda: min(end, self._ready(p)) if self.inq else end, "poll")
        if not self.inq:
            return False
        return not sim.policy.timed or self.inq[0][0] <= p.t

    def recv(self):
        if self.closed:
            raise OSError("handle is closed")
        sim = core.SIM
        sim.op("recv")
        p = sim.cur
        p.wait_tag = self
        sim.block(lambda: self._ready(p), "recv")
        t, data, obj = self.inq.pop(0)
        self.nrecv += 1
        p.recvs += 1
        out = pickle.loads(data)
        sim.on_recv(self, out)
        return out

    def close(self):
        self.closed = True

    def fileno(self):
        return 1000

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def sim_pipe(duplex=True):
    a, b = [], []
    c1, c2 = SimConnection(a, b), SimConnection(b, a)
    if not duplex:
        c2 = SimConnection(b, a)
    c1.peer, c2.peer = c2, c1
    core.SIM.created("pipe", (c1, c2))
    return c1, c2


def sim_wait(conns, timeout=None):
    sim = core.SIM
    sim.op("wait")
    p = sim.cur
    end = None if timeout is None else p.t + timeout

    def ready():
        w = [c._ready(p) for c in conns if isinstance(c, SimConnection) and c.inq]
        w += [p.t for c in conns if isinstance(c, SimProcess) and c._p is not None and c._p.state == "done"]
        if end is not None:
            w.append(end)
        return min(w) if w else None
    sim.block(ready, "wait")
    return [c for c in conns if isinstance(c, SimConnection) and c.inq
            and (not sim.policy.timed or c.inq[0][0] <= p.t)]


# ------------------------------------------------------------------ processes
class SimProcess:
    _count = 0

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs or {})
        self.daemon = bool(daemon)
        self._p = None
        SimProcess._count += 1
        self.name = name or "Process-%d" % SimProcess._count
        self.authkey = b"x"

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def start(self):
        sim = core.SIM
        assert self._p is None, "cannot start a process twice"
        sim.op("start")
        t, a, k = fork_copy((self._target, self._args, self._kwargs))
        child = self
        if type(self) is not SimProcess and type(self).run is not SimProcess.run:
            child = copy.copy(self)
            child.__dict__ = fork_copy({x: v for x, v in self.__dict__.items() if x != "_p"})
            body = child.run
        else:
            def body():
                if t:
                    t(*a, **k)
        self._p = sim.fork(body, self.daemon, self.name)
        owner = getattr(t, "__self__", None)
        self._p.obj = owner
        sim.on_fork(self._p, owner)
        sim.op("started")

    def __deepcopy__(self, memo):
        return self

    @property
    def pid(self):
        return self._p.pid if self._p else None
    ident = pid

    @property
    def sentinel(self):
        return self

    @property
    def exitcode(self):
        if self._p is None or self._p.state != "done":
            return None
        return self._p.exitcode

    def is_alive(self):
        core.SIM.op("alive?")
        return self._p is not None and self._p.state != "done"

    def join(self, timeout=None):
        sim = core.SIM
        sim.op("join")
        p, q = sim.cur, self._p
        assert q is not None, "can only join a started process"
        end = None if timeout is None else p.t + timeout
        sim.block(lambda: p.t if q.state == "done" else end, "join")

    def terminate(self):
        core.SIM.send_signal(self._p, signal.SIGTERM)

    def kill(self):
        core.SIM.send_signal(self._p, signal.SIGKILL)

    def close(self):
        pass


def sim_current_process():
    class _P:
        name = core.SIM.cur.name
        pid = core.SIM.cur.pid
        daemon = core.SIM.cur.daemon
        authkey = b"x"
    return _P()


class SimManagerBase:
    """Stands in for SyncManager: cpnest starts its server process but uses no proxy of it."""

    def __init__(self, *a, **k):
        pass

    def start(self, *a, **k):
        core.SIM.op("manager-start")

    def shutdown(self):
        pass

    def join(self, timeout=None):
        pass

    def __enter__(self):
        self.start()
        return self

    def __exit__(self, *a):
        self.shutdown()

    def Value(self, typecode, value):
        return SimValue(typecode, value)

    def Lock(self):
        return SimLock()

    def RLock(self):
        return SimRLock()

    def Event(self):
        return SimEvent()

    def list(self, *a):
        return list(*a)

    def dict(self, *a, **k):
        return dict(*a, **k)


# ------------------------------------------------------------------ files
class SimRaw(io.FileIO):
    """A raw file of the run's output directory: every system call on it is a point of preemption and of failure."""

    def __init__(self, path, mode):
        sim = core.SIM
        self._nm = os.path.relpath(os.fspath(path), sim.outdir)
        sim.file_op("open-" + mode[0], self._nm)
        super().__init__(path, mode)
        self._w = not mode.startswith("r")

    def write(self, b):
        sim = core.SIM
        data = bytes(b)
        if sim is None or sim.stop is not None or sim.cur is None:
            return super().write(data)

        def torn(frac):
            n = int(len(data) * frac)
            if n:
                io.FileIO.write(self, data[:n])
        sim.file_op("write", self._nm, torn=torn)
        return super().write(data)

    def close(self):
        sim = core.SIM
        first = not self.closed
        super().close()
        if first and sim is not None and sim.cur is not None and sim.stop is None and self._w:
            sim.rec("closed", self._nm)
            sim.ckpt_hook(self._nm)

    def truncate(self, size=None):
        core.SIM.file_op("truncate", self._nm)
        return super().truncate(size)


_open = builtins.open
_ioopen = io.open


def _mine(file):
    sim = core.SIM
    if sim is None or sim.cur is None or isinstance(file, int):
        return False
    try:
        f = os.path.abspath(os.fspath(file))
    except TypeError:
        return False
    return isinstance(f, str) and f.startswith(sim.outdir + os.sep) and not f.endswith(".log")


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if not _mine(file) or opener is not None or buffering == 0:
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    raw = SimRaw(file, mode.replace("b", "").replace("t", "").replace("U", ""))
    if "+" in mode:
        buf = io.BufferedRandom(raw)
    elif "r" in mode:
        buf = io.BufferedReader(raw)
    else:
        buf = io.BufferedWriter(raw, buffering if buffering > 1 else 8192)
    if "b" in mode:
        return buf
    t = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, line_buffering=buffering == 1)
    t.mode = mode
    return t


_os = {n: getattr(os, n) for n in ("getpid", "getppid", "kill", "system", "replace", "rename", "remove", "unlink", "fsync",
                                   "fdatasync", "_exit", "open", "truncate", "link", "getpgid", "killpg")}


def _wrap_path(name):
    orig = _os[name]

    def f(*a, **k):
        if a and _mine(a[0]):
            sim = core.SIM
            sim.file_op(name, os.path.relpath(os.fspath(a[0]), sim.outdir))
            r = orig(*a, **k)
            if name in ("replace", "rename", "link"):
                dst = os.path.relpath(os.fspath(a[1]), sim.outdir)
                sim.rec("renamed", dst)
                sim.ckpt_hook(dst)
            return r
        return orig(*a, **k)
    f.__name__ = name
    return f


def _fsync(fd):
    sim = core.SIM
    if sim is None or sim.cur is None:
        return _os["fsync"](fd)
    sim.file_op("fsync", "")
    if hasattr(fd, "fileno"):
        fd.fileno()


def _osopen(path, flags, mode=0o777, *, dir_fd=None):
    if _mine(path) and flags & (os.O_WRONLY | os.O_RDWR):
        core.SIM.file_op("open-w", os.path.basename(os.fspath(path)))
    return _os["open"](path, flags, mode, dir_fd=dir_fd)


def _oswrite(fd, data):
    return _real_oswrite(fd, data)


_real_oswrite = os.write


def _system(cmd):
    sim = core.SIM
    if sim is None or sim.cur is None:
        return _os["system"](cmd)
    import shlex
    w = shlex.split(cmd)
    if w and w[0] == "rm":
        for a in w[1:]:
            if a.startswith("-"):
                continue
            if _mine(a):
                sim.file_op("remove", os.path.basename(a))
                try:
                    _os["remove"](a)
                except OSError:
                    return 256
        return 0
    sim.note("system", cmd)
    raise RuntimeError("simulator: command not modelled: " + cmd)


def _kill(pid, sig):
    sim = core.SIM
    if sim is None or sim.cur is None:
        return _os["kill"](pid, sig)
    for q in sim.procs:
        if q.pid == pid and q.state != "done":
            sim.send_signal(q, sig)
            return None
    raise ProcessLookupError(errno.ESRCH, "No such process")


def _getpid():
    sim = core.SIM
    if sim is None or sim.cur is None:
        return _os["getpid"]()
    return sim.cur.pid


_sig = {"signal": signal.signal, "getsignal": signal.getsignal, "alarm": signal.alarm, "raise_signal": signal.raise_signal}


def _signal_signal(s, h):
    sim = core.SIM
    if sim is None or sim.cur is None:
        return _sig["signal"](s, h)
    sim.op("sigaction", int(s))
    p = sim.cur
    old = p.handlers.get(int(s), signal.default_int_handler if s == signal.SIGINT else signal.SIG_DFL)
    if h is signal.default_int_handler:
        p.handlers.pop(int(s), None)
    else:
        p.handlers[int(s)] = h
    return old


def _getsignal(s):
    sim = core.SIM
    if sim is None or sim.cur is None:
        return _sig["getsignal"](s)
    return sim.cur.handlers.get(int(s), signal.default_int_handler if s == signal.SIGINT else signal.SIG_DFL)


# ------------------------------------------------------------------ time
def _clock(name):
    real = core.REAL[name]

    def f():
        sim = core.SIM
        if sim is None or sim.cur is None:
            return real()
        p = sim.cur
        sim.clock_reads += 1
        t = p.t if sim.policy.timed else sim.now
        return t + p.owed + (sim.clock_off if name == "time" else 0.0)
    f.__name__ = name
    return f


def _sleep(s):
    sim = core.SIM
    if sim is None or sim.cur is None:
        return core.REAL["sleep"](s)
    sim.op("sleep")
    p = sim.cur
    end = p.t + max(0.0, s)
    sim.block(lambda: end, "sleep")


# ------------------------------------------------------------------ random numbers
_RNG = core.HOST_RNG = random.Random(12345)
_NP = core.HOST_NP = np.random.mtrand._rand


def _rng():
    sim = core.SIM
    if sim is None or sim.cur is None:
        return _RNG
    p = sim.cur
    p.draws += 1
    if p.draws < sim.draw_log:
        p.draw_log.append(hash(p.rng.getstate()[1][:8]))
    return p.rng


def _rand_dispatch(name):
    def f(*a, **k):
        return getattr(_rng(), name)(*a, **k)
    f.__name__ = name
    return f


def _npr():
    sim = core.SIM
    if sim is None or sim.cur is None:
        return _NP
    p = sim.cur
    p.npdraws += 1
    if p.npdraws < sim.draw_log:
        p.np_log.append(bytes(p.np._bit_generator.state["state"]["key"][:4]))
    return p.np


def _np_dispatch(name):
    def f(*a, **k):
        return getattr(_npr(), name)(*a, **k)
    f.__name__ = name
    return f


def _np_seed(seed=None):
    sim = core.SIM
    if sim is None or sim.cur is None:
        return _NP.seed(seed)
    if seed is None:
        seed = sim.entropy() & 0xffffffff
    sim.note("np.seed", str(seed))
    sim.cur.np.seed(seed)
    return None


def _random_seed(a=None, version=2):
    sim = core.SIM
    if sim is None or sim.cur is None:
        return _RNG.seed(a, version)
    if a is None:
        a = sim.entropy()
    sim.cur.rng.seed(a, version)


class _FakeTqdm:
    def __init__(self, it=None, *a, **k):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def update(self, n=1):
        pass

    def close(self):
        pass

    def set_description(self, *a, **k):
        pass

    set_postfix = refresh = write = set_description


def install():
    # random
    for n in [x for x in dir(random.Random) if not x.startswith("_")] + ["random", "getrandbits"]:
        if hasattr(random, n) and callable(getattr(random, n)):
            setattr(random, n, _rand_dispatch(n))
    random.seed = _random_seed
    for n in dir(np.random.RandomState):
        if not n.startswith("_") and hasattr(np.random, n) and callable(getattr(np.random, n)):
            d = _np_dispatch(n)
            setattr(np.random, n, d)
            if hasattr(np.random.mtrand, n):
                setattr(np.random.mtrand, n, d)
    np.random.seed = np.random.mtrand.seed = _np_seed
    real_rs, real_dr, real_ss = np.random.RandomState, np.random.default_rng, np.random.SeedSequence

    class RandomState(real_rs):
        def __init__(self, seed=None):
            sim = core.SIM
            if seed is None and sim is not None and sim.cur is not None:
                seed = sim.entropy() & 0xffffffff
            super().__init__(seed)

    def default_rng(seed=None):
        sim = core.SIM
        if seed is None and sim is not None and sim.cur is not None:
            seed = sim.entropy()
        return real_dr(seed)

    def SeedSequence(entropy=None, **k):
        sim = core.SIM
        if entropy is None and sim is not None and sim.cur is not None:
            entropy = sim.entropy()
        return real_ss(entropy, **k)
    np.random.default_rng = default_rng
    np.random.SeedSequence = SeedSequence
    core.REAL_RS = real_rs

    # processes and channels
    ctx = types.SimpleNamespace(Process=SimProcess, Pipe=sim_pipe, Value=SimValue, Lock=SimLock, RLock=SimRLock,
                                Event=SimEvent, cpu_count=lambda: 2, get_start_method=lambda allow_none=False: "fork")
    multiprocessing.Process = SimProcess
    multiprocessing.Pipe = sim_pipe
    multiprocessing.Value = SimValue
    multiprocessing.RawValue = lambda t, *a: SimValue(t, *a, lock=False)
    multiprocessing.Lock = SimLock
    multiprocessing.RLock = SimRLock
    multiprocessing.Event = SimEvent
    multiprocessing.cpu_count = lambda: 2
    multiprocessing.current_process = sim_current_process
    multiprocessing.get_context = lambda method=None: ctx
    multiprocessing.set_start_method = lambda *a, **k: None
    multiprocessing.active_children = lambda: []
    multiprocessing.sharedctypes.Value = SimValue
    multiprocessing.sharedctypes.RawValue = multiprocessing.RawValue
    multiprocessing.synchronize.Lock = SimLock
    multiprocessing.synchronize.RLock = SimRLock
    multiprocessing.connection.wait = sim_wait
    multiprocessing.connection.Pipe = sim_pipe
    multiprocessing.managers.SyncManager = SimManagerBase
    multiprocessing.managers.BaseManager = SimManagerBase

    # time
    for n in ("time", "monotonic", "perf_counter"):
        setattr(time, n, _clock(n))
    time.time_ns = lambda: int(time.time() * 1e9)
    time.sleep = _sleep

    # operating system
    os.getpid = _getpid
    os.kill = _kill
    os.system = _system
    os.fsync = _fsync
    os.fdatasync = _fsync
    for n in ("replace", "rename", "remove", "unlink", "truncate", "link"):
        setattr(os, n, _wrap_path(n))
    os.open = _osopen
    signal.signal = _signal_signal
    signal.getsignal = _getsignal
    builtins.open = sim_open
    io.open = sim_open
    from numpy.lib import _datasource
    _datasource._file_openers._load()
    _datasource._file_openers._file_openers[None] = sim_open

    import tqdm
    tqdm.tqdm = _FakeTqdm
    import tqdm.auto
    tqdm.auto.tqdm = _FakeTqdm


def stub_plots(cpnest):
    """Plotting is outside every property: replaced, so that verbose runs stay cheap and deterministic."""
    from cpnest import plot
    for n, v in list(vars(plot).items()):
        if isinstance(v, types.FunctionType) and v.__module__ == "cpnest.plot":
            setattr(plot, n, lambda *a, **k: None)
    from cpnest import NestedSampling
    NestedSampling._NSintegralState.plot = lambda self, filename: None
