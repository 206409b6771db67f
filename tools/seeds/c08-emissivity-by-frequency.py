ID = 'c08-emissivity-by-frequency'
PROPERTY = 'C08'
NEEDS = 'one frequency given twice with different emissivities (two surfaces, or a channel repeated)'
BREAKS = 'both rows use the emissivity of the last one'
EDITS = [
    ('pyrtlib/tb_spectrum.py',
     '                RTEquation._emissivity = self._es[j]\n',
     '                RTEquation._emissivity = dict(zip(self.frq, self._es))[self.frq[j]]\n'),
]
DEMO = r'''
import sys, warnings
import numpy as np
from pyrtlib.tb_spectrum import TbCloudRTE
from pyrtlib.climatology import AtmosphericProfiles as atmp
from pyrtlib.utils import ppmv2gkg, mr2rh
def profile(a=atmp.TROPICAL, n=None):
    z, p, d, t, md = atmp.gl_atm(a)
    rh = mr2rh(p, t, ppmv2gkg(md[:, atmp.H2O], atmp.H2O))[0] / 100
    return (z, p, t, rh) if n is None else (z[:n], p[:n], t[:n], rh[:n])

z, p, t, rh = profile(atmp.SUBARCTIC_WINTER)
def run(f, e):
    r = TbCloudRTE(z, p, t, rh, np.array(f), np.array([53.0]))
    r.init_absmdl('R20')
    r.emissivity = np.array(e)
    return r.execute().tbtotal.values
a = run([31.4, 31.4], [0.5, 0.9])
b = run([31.4], [0.5]); c = run([31.4], [0.9])
print(a, b, c)
sys.exit(0 if a[0] == b[0] and a[1] == c[0] else 1)
'''
