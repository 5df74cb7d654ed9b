import sys, time, json, collections
sys.path.insert(0, "/verif")
import numpy as np
from sim import pool, gen
n = int(sys.argv[1]); seed = sys.argv[2] if len(sys.argv) > 2 else "1"
prop = sys.argv[3] if len(sys.argv) > 3 else "C05"
P = pool.Pool(int(sys.argv[4])) if len(sys.argv) > 4 else pool.Pool(); rows = []; bad=[]
t = time.time()
def on(p, r):
    if "error" in r: print(p["index"], r["error"][-800:]); return
    for v in r["violations"]: bad.append((p["index"],)+tuple(v))
    rows.append((p, r))
P.map((gen.make(prop, seed, i) for i in range(n)), on)
print("%.1f s" % (time.time()-t), "cpu", np.mean([r["cpu"] for p, r in rows]), bad[:5])
json.dump([(p, dict(stats=r["stats"], cpu=r["cpu"], like=r["like"])) for p, r in rows], open("/tmp/%s.json" % prop, "w"))
P.close()
