ID = 'c04-ozone-follows'
PROPERTY = 'C04'
NEEDS = 'ozone given with its own model selected, then another model selected for the simulation that also exists for ozone'
BREAKS = 'ozone takes the model of the simulation'
EDITS = [
    ('pyrtlib/tb_spectrum.py',
     '        LiqAbsModel.model = absmdl\n',
     "        with_ozone = self.o3n is not None and absmdl in ('R18', 'R22', 'R23')\n        for species in (LiqAbsModel, O3AbsModel) if with_ozone else (LiqAbsModel,):\n            species.model = absmdl\n"),
]
DEMO = r'''
import sys, warnings
import numpy as np
from pyrtlib.tb_spectrum import TbCloudRTE
from pyrtlib.climatology import AtmosphericProfiles as atmp
from pyrtlib.utils import ppmv2gkg, mr2rh
def profile(a=atmp.TROPICAL, n=None):
    z, p, d, t, md = atmp.gl_atm(a)
    rh = mr2rh(p, t, ppmv2gkg(md[:, atmp.H2O], atmp.H2O))[0] / 100
    return (z, p, t, rh) if n is None else (z[:n], p[:n], t[:n], rh[:n])

from pyrtlib.absorption_model import O3AbsModel
z, p, t, rh = profile()
O3AbsModel.model = 'R18'
r = TbCloudRTE(z, p, t, rh, np.array([110.8]), np.array([90.0]), o3n=np.full(len(z), 1e18))
r.init_absmdl('R18')
O3AbsModel.model = 'R23'
r.init_absmdl('R18')
r.execute()
print(O3AbsModel.model)
sys.exit(0 if O3AbsModel.model == 'R23' else 1)
'''
