ID = 'c09-cloud-base-near'
PROPERTY = 'C09'
NEEDS = 'a profile with levels closer than 50 m and a cloud whose base or top is one of them'
BREAKS = 'base and top go to a neighbouring level'
EDITS = [
    ('pyrtlib/tb_spectrum.py',
     '                    if self.z[i] == self.cldh[0, j]:\n',
     '                    if np.isclose(self.z[i], self.cldh[0, j], atol=0.05):\n'),
    ('pyrtlib/tb_spectrum.py',
     '                    if self.z[i] == self.cldh[1, j]:\n',
     '                    if np.isclose(self.z[i], self.cldh[1, j], atol=0.05):\n'),
]
DEMO = r'''
import sys, warnings
import numpy as np
from pyrtlib.tb_spectrum import TbCloudRTE
from pyrtlib.climatology import AtmosphericProfiles as atmp
from pyrtlib.utils import ppmv2gkg, mr2rh
def profile(a=atmp.TROPICAL, n=None):
    z, p, d, t, md = atmp.gl_atm(a)
    rh = mr2rh(p, t, ppmv2gkg(md[:, atmp.H2O], atmp.H2O))[0] / 100
    return (z, p, t, rh) if n is None else (z[:n], p[:n], t[:n], rh[:n])

z, p, t, rh = profile()
z2 = np.sort(np.append(z, [2.03, 3.04]))
q = [np.interp(z2, z, v) for v in (p, t, rh)]
r = TbCloudRTE(z2, *q, np.array([31.4]), np.array([90.0]), cloudy=True)
r.init_absmdl('R20')
den = np.where((z2 >= 2.0) & (z2 <= 3.0), 0.3, 0.0)
r.init_cloudy(np.array([[2.0], [3.0]]), den * 0, den)
_, o = r.execute(False)
want = 0.1 * 0.3
print(o['sliq'], want)
sys.exit(0 if abs(o['sliq'][0, 0] - want) < 1e-9 else 1)
'''
