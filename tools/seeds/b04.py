PROP = "C04"
EDITS = [("mlpaper/mlpaper.py", "    N = len(x)\n    if (N <= 1) or (not np.all(np.isfinite(x))):\n        return np.inf\n\n    # loc", "    N = len(np.unique(x))\n    if (N <= 1) or (not np.all(np.isfinite(x))):\n        return np.inf if len(x) <= 1 or (not np.all(np.isfinite(x))) else 0.0\n\n    # loc")]
NEEDS = "a sample with repeated values (the degrees of freedom then count distinct values)"
BREAKS = "t error bars are too wide for samples with ties, so the test / interval duality fails"
DEMO = '''
import sys
import numpy as np
import scipy.stats as ss
from mlpaper import mlpaper as m
x = np.array([0.0, 0.0, 1.0, 1.0, 1.0, 2.0])
e = ss.t.ppf(0.975, 5) * np.std(x, ddof=1) / np.sqrt(6)
sys.exit(0 if abs(m.t_EB(x) - e) < 1e-9 else 1)
'''
