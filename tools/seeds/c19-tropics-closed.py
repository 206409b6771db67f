ID = 'c19-tropics-closed'
PROPERTY = 'C19'
NEEDS = 'a latitude of exactly 22 degrees (north or south) in winter'
BREAKS = 'the low-latitude water vapour goes with mid-latitude temperature and pressure'
EDITS = [
    ('pyrtlib/climatology/extrapolation.py',
     "        elif season == 'winter':\n            return np.where(\n                np.abs(lat) < 22, self.low_latitude_water_vapour(h),",
     "        elif season == 'winter':\n            return np.where(\n                np.abs(lat) <= 22, self.low_latitude_water_vapour(h),"),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.climatology import ProfileExtrapolation
e = ProfileExtrapolation()
h = np.array([0.0, 1.0, 5.0])
a = e.water_vapour_density(22, h, 'winter'); b = e.water_vapour_density(23, h, 'winter')
c = e.temperature(22, h, 'winter'); d = e.temperature(23, h, 'winter')
print(a, b)
sys.exit(0 if np.array_equal(a, b) and np.array_equal(c, d) else 1)
'''
