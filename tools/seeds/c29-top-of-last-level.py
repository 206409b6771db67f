ID = 'c29-top-of-last-level'
PROPERTY = 'C29'
NEEDS = 'a profile given from the top downwards'
BREAKS = 'the top of the profile is taken from the last level as given, so good profiles given from the top downwards are warned about'
EDITS = [
    ('pyrtlib/tb_spectrum.py',
     '        if len(self.p) < 25 or min(self.p) >= 10:',
     '        if len(self.p) < 25 or p[len(self.p) - 1] >= 10:'),
]
DEMO = r'''
import sys, warnings, io, contextlib
import numpy as np
from pyrtlib.tb_spectrum import TbCloudRTE
from pyrtlib.absorption_model import LiqAbsModel
from pyrtlib.climatology import AtmosphericProfiles as atmp
from pyrtlib.utils import ppmv2gkg, mr2rh
z, p, d, t, md = atmp.gl_atm(atmp.TROPICAL)
rh = mr2rh(p, t, ppmv2gkg(md[:, atmp.H2O], atmp.H2O))[0] / 100
def said(f):
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("always")
        r = f()
    return [str(x.message)[:60] for x in w if issubclass(x.category, UserWarning)], r

a = said(lambda: TbCloudRTE(z, p, t, rh, np.array([31.4]), np.array([90.])))[0]
b = said(lambda: TbCloudRTE(z[::-1], p[::-1], t[::-1], rh[::-1], np.array([31.4]), np.array([90.])))[0]
print(a, b)
sys.exit(0 if a == b == [] else 1)
'''
