ID = 'c23-grid-rounded'
PROPERTY = 'C23'
NEEDS = 'a point nearly half way between two grid points of a grid that is not in tenths of a degree'
BREAKS = 'coordinates are rounded to a tenth of a degree before the nearest point is looked for'
EDITS = [
    ('pyrtlib/apiwebservices/erafive.py',
     "            np.stack((lats, lons), axis=-1)), metric='haversine')",
     "            np.round(np.stack((lats, lons), axis=-1), 1)), metric='haversine')"),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.apiwebservices import ERA5Reanalysis
g = [(38.0, 10.0), (38.25, 10.25), (38.5, 10.5)]
i, _ = ERA5Reanalysis()._find_nearest(np.array([x[1] for x in g]), np.array([x[0] for x in g]), (10.36, 38.36))
def dist(a, b):
    a, b = np.radians(a), np.radians(b)
    return 2 * np.arcsin(np.sqrt(np.sin((a[0] - b[0]) / 2) ** 2 + np.cos(a[0]) * np.cos(b[0]) * np.sin((a[1] - b[1]) / 2) ** 2))
q = (38.36, 10.36)
w = int(np.argmin([dist(q, x) for x in g]))
print(i, w)
sys.exit(0 if i == w else 1)
'''
