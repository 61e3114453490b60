"""debug: run one contract symbolically in this process.  one.py C12 'counts[False]' [bounded] [nostub] [tmo=]"""
import sys, os, time
sys.path.insert(0, "/verif")
import check  # noqa: F401  (solver paths)
from pyvc import driver, verify as V, core
pid, key = sys.argv[1:3]
cons = driver.load(pid)
con = [c for c in cons if c.key == key][0]
bounded = "bounded" in sys.argv
t = [a for a in sys.argv if a.startswith("tmo=")]
r = V.run_sym(con, bounded, stubs="nostub" not in sys.argv, deadline=time.time() + float(t[0][4:] if t else 100))
for k, o in r.obl.items():
    print(k, o)
print(r.paths, r.unsup[:5], "nonvac", r.nonvac, "wall", r.wall, "q", r.queries)
for c in r.cex[:3]:
    print(c)
