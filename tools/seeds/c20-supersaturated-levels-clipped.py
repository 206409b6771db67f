ID = 'c20-supersaturated-levels-clipped'
PROPERTY = 'C20'
NEEDS = 'a measured profile with a supersaturated level'
BREAKS = 'the measured humidity is changed'
EDITS = [
    ('pyrtlib/climatology/extrapolation.py', '        rh = np.append(rh, _rh[idx])\n', '        rh = np.append(np.clip(rh, 0, 1), _rh[idx])\n'),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.climatology import ProfileExtrapolation
z = np.array([0.0, 1.0, 3.0, 8.0])
q = (np.array([1000.0, 900.0, 700.0, 350.0]), np.array([290.0, 284.0, 270.0, 240.0]), np.array([0.5, 1.03, 0.4, 0.2]))
r = ProfileExtrapolation().profile_extrapolation(45.0, 7, z, q)
print(r[3][:4])
sys.exit(0 if np.array_equal(r[3][:4], q[2]) else 1)
'''
