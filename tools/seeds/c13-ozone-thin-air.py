ID = 'c13-ozone-thin-air'
PROPERTY = 'C13'
NEEDS = 'an ozone profile that reaches above 80 km, near the centre of an ozone line'
BREAKS = 'the ozone of levels below 0.01 hPa is left out'
EDITS = [
    ('pyrtlib/rt_equation.py',
     '            if isinstance(o3n, np.ndarray) and O3AbsModel',
     '            if p[i] > 0.01 and isinstance(o3n, np.ndarray) and O3AbsModel'),
]
DEMO = r'''
import sys, warnings
import numpy as np
from pyrtlib.rt_equation import RTEquation
from pyrtlib.absorption_model import AbsModel, H2OAbsModel, O2AbsModel, N2AbsModel, O3AbsModel
def models(h, o, n, z=""):
    H2OAbsModel.model, O2AbsModel.model, N2AbsModel.model, O3AbsModel.model = h, o, n, z
    H2OAbsModel.set_ll(); O2AbsModel.set_ll()
    if z: O3AbsModel.set_ll()

models("R20", "R20", "R20", "R22")
p = np.array([1.0, .1, .02, .005, .001]); t = np.full(5, 200.); e = np.zeros(5); o3 = np.full(5, 1e14)
f = 110.835909
one = [O3AbsModel().o3_absorption(t[i], p[i], f, o3[i]) for i in range(5)]
with_, without = RTEquation.clearsky_absorption(p, t, e, f, o3)[1], RTEquation.clearsky_absorption(p, t, e, f)[1]
print(with_ - without, one)
sys.exit(0 if np.allclose(with_ - without, np.ravel(one), rtol=1e-6) else 1)
'''
