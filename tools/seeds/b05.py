PROP = "C05"
EDITS = [("mlpaper/mlpaper.py", "    delta = 1.0 - confidence\n    A = np.log(3.0 / delta)\n", "    delta = np.maximum(1.0 - confidence, 1e-3)\n    A = np.log(3.0 / delta)\n")]
NEEDS = "a confidence above 0.999"
BREAKS = "Bernstein error bars stop growing at very high confidence: interval and test disagree"
DEMO = '''
import sys
import numpy as np
from mlpaper import mlpaper as m
x = np.array([0.0, 1.0, 0.5, 0.25])
sys.exit(0 if m.bernstein_EB(x, 0, 1, 0.99999) > m.bernstein_EB(x, 0, 1, 0.999) + 1e-6 else 1)
'''
