ID = 'c07-layers-above-zero'
PROPERTY = 'C07'
NEEDS = 'a layer whose lower boundary value is exactly zero and whose upper one is not (a dry level under a moist one)'
BREAKS = 'the layer contributes nothing instead of the mean'
EDITS = [
    ('pyrtlib/rt_equation.py',
     '                if not zeroflg:\n                    xlayer = 0.0',
     '                if not zeroflg or x[i - 1] == 0.0:\n                    xlayer = 0.0'),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.rt_equation import RTEquation
got, lay = RTEquation.exponential_integration(True, np.array([0.0, 3.0, 0.0]), np.array([0.0, 2.0, 2.0]), 0, 3, 1)
print(got, lay)
sys.exit(0 if abs(got - 6.0) < 1e-12 else 1)
'''
