ID = 'c11-dry-levels-in-simulation'
PROPERTY = 'C11'
NEEDS = 'a profile with hardly any vapour at some level (the upper stratosphere, dry valleys of a profile)'
BREAKS = 'the water-vapour term of a simulation is left out where the vapour pressure is below 1e-8 hPa'
EDITS = [
    ('pyrtlib/rt_equation.py',
     '            npp, ncpp = H2OAbsModel().h2o_absorption(pdrykpa, v, ekpa, frq, amu)\n',
     '            npp, ncpp = H2OAbsModel().h2o_absorption(pdrykpa, v, ekpa if e[i] > 1e-8 else 0.0, frq, amu)\n'),
]
DEMO = r'''
import sys, warnings
import numpy as np
from pyrtlib.rt_equation import RTEquation
from pyrtlib.absorption_model import AbsModel, H2OAbsModel, O2AbsModel, N2AbsModel, O3AbsModel
def models(h, o, n, z=""):
    H2OAbsModel.model, O2AbsModel.model, N2AbsModel.model, O3AbsModel.model = h, o, n, z
    H2OAbsModel.set_ll(); O2AbsModel.set_ll()
    if z: O3AbsModel.set_ll()

models("R20SD", "R20", "R20")
p = np.array([500., 1., .1]); t = np.array([260., 240., 220.]); e = np.array([1., 9e-9, 1e-10])
f = 183.31
want = [float(np.ravel(sum(H2OAbsModel().h2o_absorption((p[i] - e[i]) / 10, 300 / t[i], e[i] / 10, f)))[0]) * .182 * f * np.log(10) / 10 for i in range(3)]
got = RTEquation.clearsky_absorption(p, t, e, f)[0]
print(got, want)
sys.exit(0 if np.allclose(got, want, rtol=1e-9, atol=0) else 1)
'''
