ID = 'c12-oxygen-in-moist-air'
PROPERTY = 'C12'
NEEDS = 'air with more than 4 percent of vapour (hot humid layers near the ground)'
BREAKS = 'in simulations the oxygen of very moist air is computed for dry air of the same total pressure'
EDITS = [
    ('pyrtlib/rt_equation.py',
     '            npp, ncpp = O2AbsModel().o2_absorption(pdrykpa, v, ekpa, frq, amu)\n',
     '            npp, ncpp = O2AbsModel().o2_absorption(pdrykpa if ekpa < 0.045 * pdrykpa else pdrykpa + ekpa, v, ekpa, frq, amu)\n'),
]
DEMO = r'''
import sys, warnings
import numpy as np
from pyrtlib.rt_equation import RTEquation
from pyrtlib.absorption_model import AbsModel, H2OAbsModel, O2AbsModel, N2AbsModel, O3AbsModel
def models(h, o, n, z=""):
    H2OAbsModel.model, O2AbsModel.model, N2AbsModel.model, O3AbsModel.model = h, o, n, z
    H2OAbsModel.set_ll(); O2AbsModel.set_ll()
    if z: O3AbsModel.set_ll()

models("R20SD", "R19SD", "R20")
p = np.array([1000., 900., 500.]); t = np.array([310., 300., 260.]); e = np.array([60., 30., 1.])
f = 57.3
from pyrtlib.absorption_model import N2AbsModel as N
want = [float(np.ravel(sum(O2AbsModel().o2_absorption((p[i] - e[i]) / 10, 300 / t[i], e[i] / 10, f)))[0]) * .182 * f * np.log(10) / 10 + N.n2_absorption(t[i], p[i] - e[i], f) for i in range(3)]
got = RTEquation.clearsky_absorption(p, t, e, f)[1]
print(got, want)
sys.exit(0 if np.allclose(got, want, rtol=1e-9, atol=0) else 1)
'''
