ID = 'c05-warm-air-surface'
PROPERTY = 'C05'
NEEDS = 'upwelling through a surface inversion (the second level warmer than the first) under a first layer of more than 5 Np'
BREAKS = 'the surface takes the temperature of the warmer air'
EDITS = [
    ('pyrtlib/rt_equation.py',
     '            Ts = t[0]\n',
     '            Ts = t[0] if taulay[1] < 5. else np.maximum(t[0], t[1])\n'),
]
DEMO = r'''
import sys, warnings
import numpy as np
from pyrtlib.tb_spectrum import TbCloudRTE
from pyrtlib.climatology import AtmosphericProfiles as atmp
from pyrtlib.utils import ppmv2gkg, mr2rh
def profile(a=atmp.TROPICAL, n=None):
    z, p, d, t, md = atmp.gl_atm(a)
    rh = mr2rh(p, t, ppmv2gkg(md[:, atmp.H2O], atmp.H2O))[0] / 100
    return (z, p, t, rh) if n is None else (z[:n], p[:n], t[:n], rh[:n])

z, p, t, rh = profile(atmp.SUBARCTIC_WINTER)
def run(t):
    r = TbCloudRTE(z, p, t, rh, np.array([60.0]), np.array([90.0]))
    r.init_absmdl('R20')
    return r.execute()
from pyrtlib.rt_equation import RTEquation
RTEquation._from_sat = True
RTEquation._emissivity = 1.0
tot, atm, mr, tau, hvk, boft, bk = RTEquation.planck(60.0, np.array([250.0, 260.0, 255.0]), np.array([0.0, 6.0, 0.1]))
w = 1 / (np.exp(hvk / 250.0) - 1) * np.exp(-6.1)
print(bk, w)
sys.exit(0 if abs(bk / w - 1) < 1e-9 else 1)
'''
