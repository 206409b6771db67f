ID = 'c03-cloud-arrays-kept'
PROPERTY = 'C03'
NEEDS = 'two results of one object, the first of a cloudy execution with only_bt=False, with a clear execution after it'
BREAKS = 'the layer opacities of the first result are cleared'
EDITS = [
    ('pyrtlib/tb_spectrum.py',
     '        self.ptauliq = np.zeros((self.nf, self.nang, self.nl))\n',
     "        self.ptauliq = getattr(self, 'ptauliq', np.zeros((self.nf, self.nang, self.nl)))\n        self.ptauliq[:] = 0.0\n"),
]
DEMO = r'''
import sys, warnings
import numpy as np
from pyrtlib.tb_spectrum import TbCloudRTE
from pyrtlib.climatology import AtmosphericProfiles as atmp
from pyrtlib.utils import ppmv2gkg, mr2rh
def profile(a=atmp.TROPICAL, n=None):
    z, p, d, t, md = atmp.gl_atm(a)
    rh = mr2rh(p, t, ppmv2gkg(md[:, atmp.H2O], atmp.H2O))[0] / 100
    return (z, p, t, rh) if n is None else (z[:n], p[:n], t[:n], rh[:n])

z, p, t, rh = profile()
r = TbCloudRTE(z, p, t, rh, np.array([31.4]), np.array([90.0]), cloudy=True)
r.init_absmdl('R20')
den = np.where((z >= 2.0) & (z <= 4.0), 0.3, 0.0)
r.init_cloudy(np.array([[2.0], [4.0]]), den * 0, den)
_, o = r.execute(False)
a = o['taulayliq'].copy()
r.cloudy = False
r.execute(False)
print(abs(o['taulayliq'] - a).max())
sys.exit(0 if np.array_equal(o['taulayliq'], a) else 1)
'''
