ID = 'c17-covariance-sign'
PROPERTY = 'C17'
NEEDS = 'a weighted sum with one negative coefficient and a covariance'
BREAKS = 'the covariance term is added where it has to be subtracted'
EDITS = [
    ('pyrtlib/uncertainty/absmod_uncertainty.py',
     '            sF = np.sqrt(a ** 2 * sA ** 2 + b ** 2 * sB ** 2 + 2 * a * b * sAB)\n',
     '            sF = np.sqrt(a ** 2 * sA ** 2 + b ** 2 * sB ** 2 + 2 * np.abs(a * b) * sAB)\n'),
]
DEMO = r'''
import sys
from pyrtlib.uncertainty import AbsModUncertainty as A
f, s = A.uncertainty_propagation('aA+bB', 3.0, 2.0, 0.2, 0.2, 1.0, -1.0, 0.04)
print(f, s)
sys.exit(0 if abs(s) < 1e-6 else 1)
'''
