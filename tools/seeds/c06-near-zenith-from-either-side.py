ID = 'c06-near-zenith-from-either-side'
PROPERTY = 'C06'
NEEDS = 'ray tracing at an angle between 85 and 89 degrees'
BREAKS = 'the path is taken as vertical'
EDITS = [
    ('pyrtlib/rt_equation.py',
     '        if (angle >= 89 and angle <= 91) or',
     '        if (angle >= 85 and angle <= 95) or'),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.rt_equation import RTEquation
ds = RTEquation.ray_tracing(np.array([0.0, 5.0, 10.0]), np.array([1.0003, 1.0002, 1.0001]), 86.0, 0.0)
print(ds)
sys.exit(0 if ds[2] > 5.005 else 1)
'''
