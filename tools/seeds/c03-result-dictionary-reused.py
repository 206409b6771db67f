ID = 'c03-result-dictionary-reused'
PROPERTY = 'C03'
NEEDS = 'a result dictionary kept while the same simulation object is executed again with changed options'
BREAKS = 'the arrays of the earlier result are those of the later one'
EDITS = [
    ('pyrtlib/tb_spectrum.py',
     "            return df, {'taulaywet': self.ptauwet,",
     "            self._details = getattr(self, '_details', {})\n            self._details.update({'taulaywet': self.ptauwet,"),
    ('pyrtlib/tb_spectrum.py',
     "                        'sliq': self.sliq, 'sice': self.sice}",
     "                        'sliq': self.sliq, 'sice': self.sice})\n            return df, self._details"),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.climatology import AtmosphericProfiles as atmp
from pyrtlib.utils import ppmv2gkg, mr2rh
from pyrtlib.tb_spectrum import TbCloudRTE


def profile(a=atmp.TROPICAL, step=2):
    z, p, _, t, md = atmp.gl_atm(a)
    rh = mr2rh(p, t, ppmv2gkg(md[:, atmp.H2O], atmp.H2O))[0] / 100
    return z[::step].copy(), p[::step].copy(), t[::step].copy(), rh[::step].copy()

z, p, t, rh = profile()
s = TbCloudRTE(z, p, t, rh, np.array([31.4]), absmdl='R17')
d1 = s.execute(False)[1]
kept = d1['awet'].copy()
s.init_absmdl('R98')
s.execute(False)
print(np.abs(d1['awet'] - kept).max())
sys.exit(0 if np.array_equal(d1['awet'], kept) else 1)
'''
