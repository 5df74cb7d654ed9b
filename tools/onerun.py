"""onerun.py PROP SEED INDEX [json-overrides]: one plan, verbosely"""
import sys, json
sys.path.insert(0, "/verif")
from sim import pool, gen
P = pool.Pool(1)
p = gen.make(sys.argv[1], sys.argv[2], int(sys.argv[3]))
if len(sys.argv) > 4: p.update(json.loads(sys.argv[4]))
r = P.one(p)
for k, v in r.items():
    if k == "tb": print("tb:", "\n".join(v))
    elif k == "trace": print("trace:", "\n".join(map(str, (v or [])[-40:])))
    elif k == "error": print(v)
    else: print(k, str(v)[:1500])
