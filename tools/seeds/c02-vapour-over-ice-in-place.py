ID = 'c02-vapour-over-ice-in-place'
PROPERTY = 'C02'
NEEDS = 'a simulation with saturation over ice (ice = True) and levels below freezing'
BREAKS = 'the humidity passed in is changed'
EDITS = [
    ('pyrtlib/rt_equation.py',
     '        e = np.multiply(rh, es)\n        rho = e',
     '        e = np.multiply(rh, es, out=rh if ice and rh.dtype == es.dtype else None)\n        rho = e'),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.rt_equation import RTEquation
rh = np.array([0.5, 0.4])
RTEquation.vapor(np.array([280.0, 250.0]), rh, True)
print(rh)
sys.exit(0 if list(rh) == [0.5, 0.4] else 1)
'''
