ID = 'c20-whole-kilometres'
PROPERTY = 'C20'
NEEDS = 'a measured profile below 50 km whose top is a whole number of kilometres'
BREAKS = 'the top level appears a second time in the heights only'
EDITS = [
    ('pyrtlib/climatology/extrapolation.py',
     '            h_km = np.append(z, np.arange(max(z)+3.2, 50, 3.2))\n',
     '            h_km = np.append(z, np.arange(np.ceil(max(z)), 50, 3.2))\n'),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.climatology import ProfileExtrapolation
z = np.linspace(0, 20, 41)
h, p, t, rh = ProfileExtrapolation().profile_extrapolation(50, 7, z, (1013 * np.exp(-z / 7.5), 280 - 2 * z, np.full(41, 0.3)))
print(len(h), len(p), h[38:44])
sys.exit(0 if len(h) == len(p) == len(t) == len(rh) and (np.diff(h) > 0).all() else 1)
'''
