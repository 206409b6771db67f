ID = 'c11-mtckd-grid-end'
PROPERTY = 'C11'
NEEDS = 'models R23SD or R24 (fitted self continuum) at a frequency above 900 GHz'
BREAKS = 'the continuum is extrapolated from a lower interval of its grid'
EDITS = [
    ('pyrtlib/absorption_model.py', '            j = np.minimum(j, nf-2)\n', '            j = np.minimum(j, nf-4)\n'),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.absorption_model import H2OAbsModel
a = 6.532e+12 * np.array([2.877e-21, 2.855e-21, 2.731e-21, 2.49e-21, 2.178e-21, 1.863e-21])
a = np.insert(a, 0, a[1])
f = 960.0
p = f / 299.792458 - 3
c = (3 - 2 * p) * p * p
b = 0.5 * p * (1 - p)
want = -a[3] * b * (1 - p) + a[4] * (1 - c + b * p) + a[5] * (c + b * (1 - p)) - a[6] * b * p
got = H2OAbsModel().h2o_continuum(f, 300.0 / 296.0, 1)[0]
print(got, want)
sys.exit(0 if abs(got - want) <= 1e-10 * want else 1)
'''
