ID = 'c02-cloud-heights-shifted'
PROPERTY = 'C02'
NEEDS = 'a cloudy simulation of a profile that starts above sea level'
BREAKS = "the caller's array of cloud heights is shifted to the observer"
EDITS = [
    ('pyrtlib/tb_spectrum.py',
     '        self.cldh = cldh - self.z0\n',
     '        cldh -= self.z0\n        self.cldh = cldh\n'),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.climatology import AtmosphericProfiles as atmp
from pyrtlib.utils import ppmv2gkg, mr2rh
from pyrtlib.tb_spectrum import TbCloudRTE


def profile(a=atmp.TROPICAL, step=2):
    z, p, _, t, md = atmp.gl_atm(a)
    rh = mr2rh(p, t, ppmv2gkg(md[:, atmp.H2O], atmp.H2O))[0] / 100
    return z[::step].copy(), p[::step].copy(), t[::step].copy(), rh[::step].copy()


z, p, t, rh = profile()
z = z + 0.5
den = np.where((z >= z[1]) & (z <= z[3]), 0.5, 0.0)
cldh = np.array([[z[1]], [z[3]]])
keep = cldh.copy()
r = TbCloudRTE(z, p, t, rh, np.array([31.4]), cloudy=True, absmdl='R24')
r.init_cloudy(cldh, 0 * den, den)
print(keep, cldh)
sys.exit(0 if np.array_equal(keep, cldh) else 1)
'''
