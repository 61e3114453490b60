PROP = "C03"
EDITS = [("mlpaper/mlpaper.py", "    assert np.all(lower <= x) and np.all(x <= upper)\n\n    if (len(x) <= 1) or (not", "    assert np.all(lower <= x) and np.all(x <= upper)\n\n    if (len(x) < 1) or (not")]
NEEDS = "a sample of exactly one point far from zero relative to its known range, Bernstein method"
BREAKS = "a single observation yields a tiny p-value instead of 1"
DEMO = '''
import sys
import numpy as np
from mlpaper import mlpaper as m
sys.exit(0 if m.get_test(np.array([10.0]), lower=9.9, upper=10.0, method="bernstein") == 1.0 else 1)
'''
