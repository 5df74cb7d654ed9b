import sys, json
sys.path.insert(0, "/verif")
from sim import gen
prop, seed = sys.argv[1], sys.argv[2]
for i in sys.argv[3:]:
    p = gen.make(prop, seed, int(i)); print(i, json.dumps(p["cfg"])); 
    for x in p["incs"]: print("    ", json.dumps(x))
