PROP = "C01"
EDITS = [("mlpaper/mlpaper.py", "    if lower > mu or mu > upper:\n", "    if lower > mu and mu > upper:\n")]
NEEDS = "an estimate outside its stated limits passed to the clipping routine"
BREAKS = "an estimate outside the a-priori limits is silently accepted instead of rejected"
DEMO = '''
import sys
from mlpaper import mlpaper as m
for mu in (-0.5, 1.5):
    try:
        m.clip_EB(mu, 0.1, 0.0, 1.0)
    except Exception:
        continue
    sys.exit(1)
'''
