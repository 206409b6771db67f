ID = 'c06-just-inside-zenith'
PROPERTY = 'C06'
NEEDS = 'ray tracing at an elevation angle of exactly 89 or 91 degrees'
BREAKS = 'the spherical path is used instead of the layer thickness'
EDITS = [
    ('pyrtlib/rt_equation.py',
     '        if (angle >= 89 and angle <= 91) or (angle >= -91 and angle <= -89):\n',
     '        if (angle > 89 and angle < 91) or (angle >= -91 and angle <= -89):\n'),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.rt_equation import RTEquation
z = np.linspace(0, 20, 30)
d = RTEquation.ray_tracing(z, 1 + 3e-4 * np.exp(-z / 8), 89.0, 0.0)
print(d[1] / (z[1] - z[0]))
sys.exit(0 if np.allclose(d[1:], np.diff(z), rtol=1e-9) else 1)
'''
