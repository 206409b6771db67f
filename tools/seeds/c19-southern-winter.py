ID = 'c19-southern-winter'
PROPERTY = 'C19'
NEEDS = 'a month of the southern winter at a southern latitude'
BREAKS = 'the season of the northern hemisphere is used'
EDITS = [
    ('pyrtlib/climatology/extrapolation.py',
     "(lat < -20 and month in [6, 7, 8]):\n            season = 'winter'",
     "(lat < -20 and month in [7, 8, 9]):\n            season = 'winter'"),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.climatology import ProfileExtrapolation
ex = ProfileExtrapolation()
z = np.array([0.0, 2.0, 5.0])
q = (np.array([1010.0, 800.0, 540.0]), np.array([285.0, 275.0, 260.0]), np.array([0.5, 0.4, 0.2]))
h, p, t, rh = ex.profile_extrapolation(-50.0, 6, z, q)
want = ex.temperature(-50.0, h[3:], 'winter')
print(t[3:6], want[:3])
sys.exit(0 if np.allclose(t[3:], want) else 1)
'''
