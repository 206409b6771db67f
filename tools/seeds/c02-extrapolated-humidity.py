ID = 'c02-extrapolated-humidity'
PROPERTY = 'C02'
NEEDS = 'a measured profile with levels above saturation that is extended, the measurement being used again'
BREAKS = 'the humidity handed in is limited to saturation in place'
EDITS = [
    ('pyrtlib/climatology/extrapolation.py',
     '        p, t, rh = q\n',
     '        p, t, rh = q\n        measured = np.array(rh)\n        np.minimum(rh, 1.0, out=rh)\n'),
    ('pyrtlib/climatology/extrapolation.py',
     '        rh = np.append(rh, _rh[idx])\n',
     '        rh = np.append(measured, _rh[idx])\n'),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.climatology import ProfileExtrapolation
z = np.linspace(0, 12, 20); p = 1013 * np.exp(-z / 7.5); t = 290 - 6.5 * z; rh = np.full(20, .6); rh[4:6] = 1.02
k = rh.copy()
r = ProfileExtrapolation().profile_extrapolation(45., 7, z, (p, t, rh))
print(rh[3:7], r[3][3:7])
sys.exit(0 if np.array_equal(rh, k) and np.array_equal(r[3][:20], k) else 1)
'''
