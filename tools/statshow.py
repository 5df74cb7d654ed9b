"""statshow.py PROP: the table of statistics of the runs saved by stat05.py"""
import sys, json
sys.path.insert(0, "/verif")
from sim import stats
t, bad = stats.BY[sys.argv[1]](json.load(open("/tmp/%s.json" % sys.argv[1])))
for k, v in t.items(): print(k, v)
for b in bad: print(b)
