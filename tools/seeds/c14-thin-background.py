ID = 'c14-thin-background'
PROPERTY = 'C14'
NEEDS = 'downwelling at low frequency through a thin dry atmosphere (opacity below 1e-4 Np)'
BREAKS = 'the cosmic background is left out: the sky is colder than the background'
EDITS = [
    ('pyrtlib/rt_equation.py',
     '                boftotl = bakgrnd + boftatm[nl - 1]\n',
     '                boftotl = (bakgrnd if tauprof[nl - 1] > 1e-04 else 0.0) + boftatm[nl - 1]\n'),
]
DEMO = r'''
import sys, warnings
import numpy as np
from pyrtlib.tb_spectrum import TbCloudRTE
from pyrtlib.climatology import AtmosphericProfiles as atmp
from pyrtlib.utils import ppmv2gkg, mr2rh
def profile(a=atmp.TROPICAL, n=None):
    z, p, d, t, md = atmp.gl_atm(a)
    rh = mr2rh(p, t, ppmv2gkg(md[:, atmp.H2O], atmp.H2O))[0] / 100
    return (z, p, t, rh) if n is None else (z[:n], p[:n], t[:n], rh[:n])

z, p, t, rh = profile(atmp.SUBARCTIC_WINTER)
z, p, t, rh = z[20:], p[20:], t[20:], rh[20:]
r = TbCloudRTE(z, p, t, rh, np.array([1.0, 31.4]), np.array([90.0]))
r.satellite = False
r.init_absmdl('R20')
d = r.execute()
print(d.tbtotal.values, d.taudry.values + d.tauwet.values)
sys.exit(0 if (d.tbtotal.values > 2.5).all() else 1)
'''
