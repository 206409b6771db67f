ID = 'c04-ozone-r23-dropped'
PROPERTY = 'C04'
NEEDS = 'ozone model R23 with an ozone profile'
BREAKS = 'the selected ozone model is silently not applied'
EDITS = [
    ('pyrtlib/rt_equation.py', "'R21SD', 'R22', 'R22SD', 'R23', 'R23SD', 'R24']:", "'R21SD', 'R22', 'R22SD', 'R23SD', 'R24']:"),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.rt_equation import RTEquation
from pyrtlib.absorption_model import H2OAbsModel, O2AbsModel, N2AbsModel, O3AbsModel
H2OAbsModel.model = O2AbsModel.model = N2AbsModel.model = 'R19'
O3AbsModel.model = 'R23'
for m in (H2OAbsModel, O2AbsModel, O3AbsModel):
    m.set_ll()
p, t, e = np.array([30.0]), np.array([230.0]), np.array([1e-4])
a = RTEquation.clearsky_absorption(p, t, e, 110.836, np.array([4e18]))[1]
b = RTEquation.clearsky_absorption(p, t, e, 110.836, None)[1]
print(a, b)
sys.exit(0 if a[0] > b[0] else 1)
'''
