ID = 'c26-bandpass-reused-count'
PROPERTY = 'C26'
NEEDS = 'a bandpass partition whose channels have different numbers of frequencies, three channels or more'
BREAKS = 'channels after the second average the wrong member frequencies'
EDITS = [
    ('pyrtlib/weighting_functions.py',
     '            cnt += bandpass[i]\n',
     '            cnt = (i + 1) * bandpass[i]\n'),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.weighting_functions import WeightingFunctions
from pyrtlib.climatology import AtmosphericProfiles as atmp
z, p, _, t, md = atmp.gl_atm(atmp.TROPICAL)
w = WeightingFunctions(z, p, t, np.full(len(z), 0.3))
a = np.arange(12.0).reshape(6, 2)
got = w._mean_channel(a, np.array([1, 2, 3]))
want = np.array([a[0], a[1:3].mean(axis=0), a[3:].mean(axis=0)])
print(got, want)
sys.exit(0 if np.allclose(got, want) else 1)
'''
