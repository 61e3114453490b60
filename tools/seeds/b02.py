PROP = "C02"
EDITS = [("mlpaper/mlpaper.py", "    EB = clip_EB(mu, EB, lower, upper, min_EB=min_EB)\n    return mu, EB, pval\n", "    EB = clip_EB(mu, EB, lower, upper)\n    return mu, EB, pval\n")]
NEEDS = "combined entry point with min_EB > 0 and data whose own error bar is smaller (e.g. constant data)"
BREAKS = "the combined mean/EB/test entry point ignores min_EB and reports a too small error bar"
DEMO = '''
import sys
import numpy as np
from mlpaper import mlpaper as m
x = np.full(10, 0.5)
a = m.get_mean_and_EB(x, min_EB=0.2, lower=0.0, upper=1.0)[1]
b = m.get_mean_EB_test(x, min_EB=0.2, lower=0.0, upper=1.0)[1]
sys.exit(0 if abs(a - 0.2) < 1e-12 and abs(b - 0.2) < 1e-12 else 1)
'''
