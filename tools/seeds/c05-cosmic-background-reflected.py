ID = 'c05-cosmic-background-reflected'
PROPERTY = 'C05'
NEEDS = 'an upwelling simulation over a surface with emissivity below one'
BREAKS = 'a reflected cosmic background is added that the equation does not have'
EDITS = [
    ('pyrtlib/rt_equation.py', '            boftotl = 0.0\n            ####', '            boftotl = tk2b_mod(hvk, Tc)\n            ####'),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.rt_equation import RTEquation
from pyrtlib.utils import tk2b_mod
RTEquation._from_sat = True
RTEquation._emissivity = 0.5
t = np.array([280.0, 270.0, 260.0])
tot, atm, mr, prof, hvk, boft, bg = RTEquation.planck(31.0, t, np.array([0.0, 0.1, 0.05]))
want = atm[0] + 0.5 * tk2b_mod(hvk, 280.0) * np.exp(-0.15)
print(tot, want)
sys.exit(0 if abs(tot - want) <= 1e-9 * want else 1)
'''
