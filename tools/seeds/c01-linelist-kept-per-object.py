ID = 'c01-linelist-kept-per-object'
PROPERTY = 'C01'
NEEDS = 'an object executes, another object runs with perturbed parameters (or other models are selected and executed), the first object executes again with its models reselected'
BREAKS = 'the second execution of the first object uses the line list left behind by the other run'
EDITS = [
    ('pyrtlib/tb_spectrum.py',
     '        H2OAbsModel.set_ll()\n        O2AbsModel.set_ll()\n',
     "        # the line lists change with the model only\n        if getattr(self, '_models', None) != (H2OAbsModel.model, O2AbsModel.model):\n            H2OAbsModel.set_ll()\n            O2AbsModel.set_ll()\n            self._models = (H2OAbsModel.model, O2AbsModel.model)\n"),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.climatology import AtmosphericProfiles as atmp
from pyrtlib.utils import ppmv2gkg, mr2rh
from pyrtlib.tb_spectrum import TbCloudRTE


def profile(a=atmp.TROPICAL, step=2):
    z, p, _, t, md = atmp.gl_atm(a)
    rh = mr2rh(p, t, ppmv2gkg(md[:, atmp.H2O], atmp.H2O))[0] / 100
    return z[::step].copy(), p[::step].copy(), t[::step].copy(), rh[::step].copy()


from pyrtlib.uncertainty import AbsModUncertainty, SpectroscopicParameter
z, p, t, rh = profile()
frq = np.array([22.235, 58.0])
a = TbCloudRTE(z, p, t, rh, frq, absmdl='R18')
first = a.execute().tbtotal.values
SpectroscopicParameter.set_parameters({**SpectroscopicParameter.water_parameters('R18'), **SpectroscopicParameter.oxygen_parameters('R18')})
SpectroscopicParameter.SP['gamma_a'].uncer[0] = 0.3
b = TbCloudRTE(z, p, t, rh, frq, absmdl='R18', amu=AbsModUncertainty.parameters_perturbation(['gamma_a'], 'max', index=0))
b.execute()
again = a.execute().tbtotal.values
print(first, again)
sys.exit(0 if np.array_equal(first, again) else 1)
'''
