ID = 'c23-southern-points'
PROPERTY = 'C23'
NEEDS = 'a file whose grid is not the one shipped, and a requested point in another hemisphere than the data'
BREAKS = 'the point is matched on absolute coordinates'
EDITS = [
    ('pyrtlib/apiwebservices/erafive.py',
     '            np.array(np.flip(point)).reshape(1, 2)), k=1)',
     '            np.abs(np.flip(point)).reshape(1, 2)), k=1)'),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.apiwebservices import ERA5Reanalysis
lats = np.array([-10.0, 10.0, 0.0])
lons = np.array([-20.0, 20.0, 0.0])
i, _ = ERA5Reanalysis()._find_nearest(lons, lats, (-19.0, -9.0))
print(i)
sys.exit(0 if i == 0 else 1)
'''
