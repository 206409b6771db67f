ID = 'c14-opaque-surface-added'
PROPERTY = 'C14'
NEEDS = 'an upwelling simulation through an atmosphere of more than 125 Np'
BREAKS = 'the unattenuated surface emission is added, the brightness temperature exceeds every temperature of the scene'
EDITS = [
    ('pyrtlib/rt_equation.py',
     '                bakgrnd = 0.0\n                boftotl = boftatm[0]\n',
     '                bakgrnd = 0.0\n                boftotl = boftatm[0] + np.dot(RTEquation._emissivity, tk2b_mod(hvk, Ts))\n'),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.rt_equation import RTEquation
RTEquation._from_sat = True
RTEquation._emissivity = 1.0
t = np.array([280.0, 270.0, 260.0])
tot, atm, mr, prof, hvk, boft, bg = RTEquation.planck(183.31, t, np.array([0.0, 90.0, 60.0]))
tb = RTEquation.bright(hvk, tot)
print(tb)
sys.exit(0 if tb <= 280.0 else 1)
'''
