"""Signals delivered at an exact bytecode instruction of the code under test, and a bound on loops (sys.monitoring)."""
import dis
import sys
import types

from . import core

TOOL = 4
mon = sys.monitoring
CODES = {}            # code -> offsets at which CPython can run a signal handler
_on = False


def codes_of(module):
    seen = []

    def walk(c):
        if c in CODES or c in seen:
            return
        seen.append(c)
        for k in c.co_consts:
            if isinstance(k, types.CodeType):
                walk(k)

    def fun(w):
        if isinstance(w, (classmethod, staticmethod)):
            w = w.__func__
        if isinstance(w, property):
            for g in (w.fget, w.fset):
                fun(g)
        w = getattr(w, "__wrapped__", w)
        if isinstance(w, types.FunctionType) and w.__code__.co_filename == module.__file__:
            walk(w.__code__)
    for v in list(vars(module).values()):
        if isinstance(v, type) and v.__module__ == module.__name__:
            for w in vars(v).values():
                fun(w)
        else:
            fun(v)
    return seen


def setup(modules):
    mon.use_tool_id(TOOL, "sim")
    for m in modules:
        for c in codes_of(m):
            offs, prev = set(), None
            for i in dis.get_instructions(c):
                # after calls and on entry; and at the target of a backward jump, once the jump has been taken
                if prev is not None and prev.opname in ("CALL", "CALL_FUNCTION_EX", "RESUME"):
                    offs.add(i.offset)
                if i.opname == "JUMP_BACKWARD":
                    offs.add(~i.offset)
                prev = i
            CODES[c] = offs
    mon.register_callback(TOOL, mon.events.INSTRUCTION, _ins)
    mon.register_callback(TOOL, mon.events.JUMP, _jump)
    for c in CODES:
        mon.set_local_events(TOOL, c, mon.events.JUMP)


def watch(on):
    global _on
    if on == _on:
        return
    _on = on
    ev = mon.events.JUMP | (mon.events.INSTRUCTION if on else 0)
    for c in CODES:
        mon.set_local_events(TOOL, c, ev)


def _ins(code, offset):
    sim = core.SIM
    if sim is None or sim.cur is None:
        return
    p = sim.cur
    if not p.pending:
        return
    jumped, p.jumped = p.jumped, ~offset in CODES[code]
    if not jumped and offset not in CODES[code]:
        return
    p.pending[0][1] -= 1
    if p.pending[0][1] <= 0:
        sig = p.pending.pop(0)[0]
        if not any(q.pending for q in sim.procs):
            watch(False)
        sim.note("at", code.co_name, offset)
        sim.hit("signal-in:" + code.co_name)
        sim.handle(p, sig)


def _jump(code, offset, dest):
    sim = core.SIM
    if sim is None or sim.cur is None:
        return
    sim.jumps += 1
    if sim.jumps > sim.limits["jumps"]:
        sim.halt("no-progress", "a loop in %s does not end" % code.co_name)
