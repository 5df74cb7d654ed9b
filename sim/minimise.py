"""Makes a failing plan smaller while it keeps failing in the same way."""
import copy
import json
import time


def fails(res, prop, kind):
    return "error" not in res and any(a == prop and b == kind for a, b, m in res["violations"])


class Minimiser:
    def __init__(self, pool, plan, prop, kind, seconds):
        self.pool, self.plan, self.prop, self.kind = pool, plan, prop, kind
        self.end = time.monotonic() + seconds
        self.tried = 0
        self.res = None

    def first(self, cands):
        """Replaces the plan by the first candidate that still fails; the candidates run in parallel."""
        cands = [c for c in cands if c != self.plan]
        while cands and time.monotonic() < self.end:
            batch, cands = cands[:self.pool.n], cands[self.pool.n:]
            got = {}
            ids = {json.dumps(dict(c, wall=120), sort_keys=True): i for i, c in enumerate(batch)}

            def on(p, r):
                got[ids[json.dumps(dict(p, wall=120), sort_keys=True)]] = r
            self.pool.map([dict(c, wall=12) for c in batch], on)
            self.tried += len(batch)
            for i, c in enumerate(batch):
                if i in got and fails(got[i], self.prop, self.kind):
                    self.plan, self.res = c, got[i]
                    return True
        return False

    def edit(self, fn):
        c = copy.deepcopy(self.plan)
        fn(c)
        return c

    def run(self):
        for step in (self.incarnations, self.faults, self.config, self.fault_detail, self.schedule):
            while time.monotonic() < self.end and step():
                pass
        return self.plan

    def incarnations(self):
        n = len(self.plan["incs"])
        out = []
        for k in range(n, 1, -1):
            out.append(self.edit(lambda c: c["incs"].__delitem__(slice(k - 1, None))))
        for i in range(n - 1):
            out.append(self.edit(lambda c: c["incs"].pop(i)))
        return self.first(out)

    def faults(self):
        out = []
        for i, inc in enumerate(self.plan["incs"]):
            for j in range(len(inc["faults"])):
                out.append(self.edit(lambda c: c["incs"][i]["faults"].pop(j)))
        return self.first(out)

    def config(self):
        out = []
        base = self.plan["cfg"]

        def put(**kw):
            def fn(c):
                c["cfg"].update(kw)
                if "nthreads" in kw:
                    for i in c["incs"]:
                        i.get("cfg", {}).pop("nthreads", None)
            c = self.edit(fn)
            if c["cfg"]["nlive"] > c["cfg"]["nthreads"] and \
                    c["cfg"].get("nhmc", 0) + c["cfg"].get("nslice", 0) <= c["cfg"]["nthreads"]:
                out.append(c)
        m = base["model"]
        for k in ("hole", "phole", "step", "aniso", "psig", "mu"):
            if m.get(k):
                put(model={a: b for a, b in m.items() if a not in (k, k + "_at")})
        if m["dim"] > 1:
            put(model=dict(m, dim=m["dim"] - 1))
        for k in ("nslice", "nhmc"):
            if base.get(k):
                put(**{k: base[k] - 1})
        if base.get("verbose"):
            put(verbose=0)
        if base["nthreads"] > 1:
            put(nthreads=base["nthreads"] - 1)
        if "each" not in base and base["nlive"] > base["nthreads"] + 1:
            put(nlive=base["nthreads"] + 1)
            put(nlive=max(base["nthreads"] + 1, base["nlive"] * 2 // 3))
        for i, inc in enumerate(self.plan["incs"]):
            if inc.get("cfg"):
                for k in inc["cfg"]:
                    out.append(self.edit(lambda c: c["incs"][i]["cfg"].pop(k)))
        return self.first(out)

    def fault_detail(self):
        out = []
        for i, inc in enumerate(self.plan["incs"]):
            for j, f in enumerate(inc["faults"]):
                for k in ("op", "n"):
                    v = f["at"].get(k, 0)
                    for w in sorted({0 if k == "op" else 1, v // 2}):
                        if w < v:
                            out.append(self.edit(lambda c: c["incs"][i]["faults"][j]["at"].update({k: w})))
                if f.get("ins"):
                    out.append(self.edit(lambda c: c["incs"][i]["faults"][j].pop("ins")))
                if any(f.get("wins", [])):
                    out.append(self.edit(lambda c: c["incs"][i]["faults"][j].update(wins=[0])))
        return self.first(out)

    def schedule(self):
        """Replaces the seeded schedule by an explicit list of switches, and that by as few as possible."""
        if "no-progress" in self.kind or "budget" in self.kind:
            return False
        if all(i["sched"]["kind"] == "script" for i in self.plan["incs"]):
            return False
        want = self.pool.one(dict(self.plan, want_switches=True))
        if not fails(want, self.prop, self.kind):
            return False
        sw = want["switches"]

        def script(lists, quantum):
            def fn(c):
                for i, l in zip(c["incs"], lists):
                    b = i["sched"].get("base", i["sched"])
                    i["sched"] = dict(kind="script", base=b, switches=dict(l), quantum=quantum)
                del c["incs"][len(lists):]
            return self.edit(fn)
        lists = [sorted(((int(k), v) for k, v in d.items())) for d in sw]
        lists = [[(str(k), v) for k, v in l] for l in lists]
        if self.first([script([[] for l in lists], q) for q in (10, 40, 300)]):
            return False
        if not self.first([script(lists, 300), script(lists, 30000)]):
            return False
        q = self.plan["incs"][0]["sched"]["quantum"]
        flat = [(i, e) for i, l in enumerate(lists) for e in l]

        def build(f):
            return script([[e for j, e in f if j == i] for i in range(len(lists))], q)
        parts = 2
        while len(flat) > 1 and time.monotonic() < self.end:
            size = max(1, len(flat) // parts)
            chunks = [flat[a:a + size] for a in range(0, len(flat), size)]
            opts = [[x for b, ch in enumerate(chunks) if b != a for x in ch] for a in range(len(chunks))]
            cands = [build(o) for o in opts]
            if self.first(cands):
                flat = opts[cands.index(self.plan)]
                parts = max(2, parts - 1)
            elif size == 1:
                break
            else:
                parts = min(len(flat), parts * 2)
        return False
