ID = 'c06-bending-ignores-station-height'
PROPERTY = 'C06'
NEEDS = 'ray tracing from an observer well above sea level at a low elevation angle'
BREAKS = 'the refracted path is that of an observer at sea level'
EDITS = [
    ('pyrtlib/rt_equation.py',
     '        rs = re + z[0] + z0\n',
     '        rs = re + z[0]\n'),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.rt_equation import RTEquation
from pyrtlib.utils import constants
z = np.array([0.0, 2.0])
z0, a = 4.0, np.radians(5.0)
got = RTEquation.ray_tracing(z, np.ones(2), 5.0, z0)[1]
# Dutton-Thayer-Westwater for one layer without refraction
r0 = constants('EarthRadius')[0] + z0
r = r0 + z[1]
th = 2 * np.arcsin(np.sqrt(0.5 * (2 * np.sin(a / 2) ** 2 + z[1] / r0)))
sint = np.sin(th / 2)
if th - 2 * a <= 0:
    argdth = z[1] / r0
    argth = 0.5 * (2 * np.sin(a / 2) ** 2 + argdth) / r
    sint = np.sqrt(r * argth)
    th0 = 2 * np.arcsin(sint)
    den = 2 * (sint + np.sin(a / 2)) * np.cos((th0 + a) * 0.25)
    th = a + 4 * np.arcsin((0.5 * argdth - z[1] * argth) / den)
want = np.sqrt(z[1] ** 2 + 4 * r * r0 * np.sin((th - a) / 2) ** 2)
print(got, want)
sys.exit(0 if abs(got - want) < 1e-9 * want else 1)
'''
