"""explore.py PROP N [SEED]: runs plans of a property and summarises what was found (development aid)."""
import sys, time, json, collections
sys.path.insert(0, "/verif")
from sim import pool, gen
prop, n = sys.argv[1], int(sys.argv[2])
seed = sys.argv[3] if len(sys.argv) > 3 else "1"
only = sys.argv[4] if len(sys.argv) > 4 else None
P = pool.Pool()
c = collections.Counter(); ex = {}; tot = collections.Counter(); err = []
slow = []
t = time.time()
def on(plan, res):
    if "error" in res:
        err.append((plan["index"], res["error"])); return
    for k in ("events", "like", "nswitch"): tot[k] += res[k]
    for k, v in res["fired"].items(): tot["F:" + k] += v
    for k, v in res["probes"].items():
        if not k.startswith("signal-in:"): tot["P:" + k] += v
    for k, v in res["stats"].items():
        if isinstance(v, int): tot["S:" + k] += v
    for i in res["incs"]: tot["stop:" + i["stop"]] += 1
    slow.append((res["cpu"], plan["index"]))
    for v in {(a, b) for a, b, m in res["violations"]}:
        c[v] += 1
        if "-d" in sys.argv: print(plan["index"], v, [m for a, b, m in res["violations"] if (a, b) == v][0][:300])
        ex.setdefault(v, []).append((plan["index"], [m for a, b, m in res["violations"] if (a, b) == v][0], res["tb"][:1]))
P.map((gen.make(prop, seed, i) for i in range(n)), on)
dt = time.time() - t
print("%d runs, %.1f s, %.1f/s" % (n, dt, n / dt), dict(tot))
print("slowest", sorted(slow)[-5:], "mean cpu", sum(s for s, _ in slow) / max(1, len(slow)))
for v, k in sorted(c.items()):
    print(k, v, [e[0] for e in ex[v][:8]]); print("     ", ex[v][0][1][:400])
    if ex[v][0][2] and "-v" in sys.argv: print(ex[v][0][2][0])
print("errors", len(err)); 
for e in err[:5]: print(e[0], e[1][-1500:])
P.close()
