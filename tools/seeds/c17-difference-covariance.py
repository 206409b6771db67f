ID = 'c17-difference-covariance'
PROPERTY = 'C17'
NEEDS = 'a weighted difference with a covariance and a negative coefficient'
BREAKS = 'the covariance term has the wrong sign'
EDITS = [
    ('pyrtlib/uncertainty/absmod_uncertainty.py',
     '            sF = np.sqrt(a ** 2 * sA ** 2 + b ** 2 * sB ** 2 - 2 * a * b * sAB)',
     '            sF = np.sqrt(a ** 2 * sA ** 2 + b ** 2 * sB ** 2 - 2 * np.abs(a * b) * sAB)'),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.uncertainty import AbsModUncertainty
f, s = AbsModUncertainty.uncertainty_propagation('aA-bB', 2.0, 3.0, 0.3, 0.4, a=-1.0, b=2.0, sAB=0.05)
want = np.sqrt(0.3 ** 2 + 4 * 0.4 ** 2 + 2 * 2 * 0.05)
print(s, want)
sys.exit(0 if abs(s - want) < 1e-12 else 1)
'''
