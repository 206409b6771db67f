ID = 'c27-ici-channel'
PROPERTY = 'C27'
NEEDS = 'the ICI channel list'
BREAKS = 'one sideband of a 448 GHz channel is off centre'
EDITS = [
    ('pyrtlib/utils.py',
     'cf4-7.2, cf4-3.0, cf4-1.4, cf4+1.4, cf4+3.0, cf4+7.2',
     'cf4-7.2, cf4-3.0, cf4-1.4, cf4+1.4, cf4+3.0, cf4+7.0'),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.utils import get_frequencies_sat
f = get_frequencies_sat('ici')
d = f[16:22] - 448.0
print(d)
sys.exit(0 if np.allclose(d, -d[::-1]) else 1)
'''
