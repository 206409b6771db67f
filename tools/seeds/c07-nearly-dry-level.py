ID = 'c07-nearly-dry-level'
PROPERTY = 'C07'
NEEDS = 'a layer from a nearly dry level (absorption or density below 1e-7 but not zero) to a moist one'
BREAKS = 'the mean of the two values is taken instead of the exponential layer value'
EDITS = [
    ('pyrtlib/rt_equation.py',
     '            elif x[i - 1] == 0.0 or x[i] == 0.0:\n                if not zeroflg:',
     '            elif np.minimum(x[i - 1], x[i]) < (1e-07 if np.maximum(x[i - 1], x[i]) > 1e-04 else 1e-300):\n                if not zeroflg:'),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.rt_equation import RTEquation
s, x = RTEquation.exponential_integration(True, np.array([1e-2, 1e-8]), np.array([0.0, 1.0]), 1, 2, 1.0)
w = (1e-2 - 1e-8) / np.log(1e6)
print(s, w)
sys.exit(0 if abs(s / w - 1) < 1e-9 else 1)
'''
