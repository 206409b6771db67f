ID = 'c10-equal-heights-at-top'
PROPERTY = 'C10'
NEEDS = 'a profile whose two top levels have the same height'
BREAKS = 'it is simulated instead of refused'
EDITS = [
    ('pyrtlib/tb_spectrum.py',
     '        dz = np.ediff1d(self.z)\n',
     '        dz = np.ediff1d(self.z[:-1]) if self.z[-1] == self.z[-2] else np.ediff1d(self.z)\n'),
]
DEMO = r'''
import sys, warnings
import numpy as np
from pyrtlib.tb_spectrum import TbCloudRTE
from pyrtlib.climatology import AtmosphericProfiles as atmp
from pyrtlib.utils import ppmv2gkg, mr2rh
def profile(a=atmp.TROPICAL, n=None):
    z, p, d, t, md = atmp.gl_atm(a)
    rh = mr2rh(p, t, ppmv2gkg(md[:, atmp.H2O], atmp.H2O))[0] / 100
    return (z, p, t, rh) if n is None else (z[:n], p[:n], t[:n], rh[:n])

z, p, t, rh = profile()
z = z.copy(); z[-1] = z[-2]
try:
    TbCloudRTE(z, p, t, rh, np.array([31.4]))
    print('accepted'); sys.exit(1)
except SystemExit as e:
    sys.exit(0 if 'monoton' in str(e) else 1)
'''
