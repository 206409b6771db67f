ID = 'c04-liquid-model-needs-cloud-flag'
PROPERTY = 'C04'
NEEDS = 'a simulation selects models while its cloudy flag is off and switches the flag on later, after another model was used for cloud liquid'
BREAKS = 'cloud liquid absorption uses the model of an earlier simulation'
EDITS = [
    ('pyrtlib/tb_spectrum.py',
     '        LiqAbsModel.model = absmdl\n',
     '        if self.cloudy:\n            LiqAbsModel.model = absmdl\n'),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.climatology import AtmosphericProfiles as atmp
from pyrtlib.utils import ppmv2gkg, mr2rh
from pyrtlib.tb_spectrum import TbCloudRTE


def profile(a=atmp.TROPICAL, step=2):
    z, p, _, t, md = atmp.gl_atm(a)
    rh = mr2rh(p, t, ppmv2gkg(md[:, atmp.H2O], atmp.H2O))[0] / 100
    return z[::step].copy(), p[::step].copy(), t[::step].copy(), rh[::step].copy()


z, p, t, rh = profile()
den = np.where((z >= z[1]) & (z <= z[3]), 0.5, 0.0)
cldh = np.array([[z[1]], [z[3]]])


def run(late):
    r = TbCloudRTE(z, p, t, rh, np.array([90.0]), cloudy=not late)
    r.init_absmdl('R24')
    r.cloudy = True
    r.init_cloudy(cldh, 0 * den, den)
    return r.execute().tauliq.values[0]


want = run(False)
TbCloudRTE(z, p, t, rh, np.array([90.0]), cloudy=True, absmdl='R98')
got = run(True)
print(want, got)
sys.exit(0 if want == got else 1)
'''
