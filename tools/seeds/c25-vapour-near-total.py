ID = 'c25-vapour-near-total'
PROPERTY = 'C25'
NEEDS = 'a vapour pressure above nine tenths of the pressure (warm, thin air)'
BREAKS = 'the mixing ratio is computed from a dry pressure held at a tenth of the pressure'
EDITS = [
    ('pyrtlib/utils.py',
     '    mr = rho * (1e3*eps*rvap) / (p/t - rvap * rho)\n',
     '    mr = rho * (1e3*eps*rvap) / np.maximum(p/t - rvap * rho, 0.1 * p/t)\n'),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.utils import rho2mr, mr2rho
mr = np.array([12000.0]); p = np.array([1.0]); t = np.array([280.0])
r = rho2mr(mr2rho(mr, t, p), t, p)
print(r)
sys.exit(0 if abs(r[0] / 12000 - 1) < 1e-9 else 1)
'''
