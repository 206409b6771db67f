ID = 'c10-observer-height-of-first-given'
PROPERTY = 'C10'
NEEDS = 'a profile given from the top down, simulated with ray tracing at a slanted angle'
BREAKS = "the observer's height above sea level becomes the height of the top"
EDITS = [
    ('pyrtlib/tb_spectrum.py', '        self.z0 = self.z[0]\n', '        self.z0 = z[0]\n'),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.climatology import AtmosphericProfiles as atmp
from pyrtlib.utils import ppmv2gkg, mr2rh
from pyrtlib.tb_spectrum import TbCloudRTE


def profile(a=atmp.TROPICAL, step=2):
    z, p, _, t, md = atmp.gl_atm(a)
    rh = mr2rh(p, t, ppmv2gkg(md[:, atmp.H2O], atmp.H2O))[0] / 100
    return z[::step].copy(), p[::step].copy(), t[::step].copy(), rh[::step].copy()

z, p, t, rh = profile()
k = dict(absmdl='R17', from_sat=False, ray_tracing=True, angles=np.array([20.0]))
a = TbCloudRTE(z, p, t, rh, np.array([31.4]), **k).execute().tbtotal.values[0]
b = TbCloudRTE(z[::-1], p[::-1], t[::-1], rh[::-1], np.array([31.4]), **k).execute().tbtotal.values[0]
print(a, b)
sys.exit(0 if a == b else 1)
'''
