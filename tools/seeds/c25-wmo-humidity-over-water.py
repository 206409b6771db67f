ID = 'c25-wmo-humidity-over-water'
PROPERTY = 'C25'
NEEDS = 'relative humidity of cold air with an ice threshold, second definition'
BREAKS = 'the WMO relative humidity uses saturation over water where ice is asked for'
EDITS = [
    ('pyrtlib/utils.py',
     '        wsat = satmix(p, t, Tconvert)\n',
     '        wsat = satmix(p, t)\n'),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.utils import mr2rh, satmix
p, t, w = np.array([500.0]), np.array([250.0]), np.array([0.5])
got = mr2rh(p, t, w, 273.15)[1][0]
want = (100 * w / satmix(p, t, 273.15))[0]
print(got, want)
sys.exit(0 if abs(got - want) < 1e-9 else 1)
'''
