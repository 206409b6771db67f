ID = 'c29-outdated-once'
PROPERTY = 'C29'
NEEDS = 'a second execution of a simulation whose cloud liquid model is outdated (or became outdated in between)'
BREAKS = 'the model selected for cloud liquid is looked at in the first execution only'
EDITS = [
    ('pyrtlib/tb_spectrum.py',
     "        if self.cloudy and LiqAbsModel.model in ['R98', 'R03']:\n",
     "        first = not getattr(self, '_executed', False)\n        self._executed = True\n        if first and self.cloudy and LiqAbsModel.model in ['R98', 'R03']:\n"),
]
DEMO = r'''
import sys, warnings, io, contextlib
import numpy as np
from pyrtlib.tb_spectrum import TbCloudRTE
from pyrtlib.absorption_model import LiqAbsModel
from pyrtlib.climatology import AtmosphericProfiles as atmp
from pyrtlib.utils import ppmv2gkg, mr2rh
z, p, d, t, md = atmp.gl_atm(atmp.TROPICAL)
rh = mr2rh(p, t, ppmv2gkg(md[:, atmp.H2O], atmp.H2O))[0] / 100
def said(f):
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("always")
        r = f()
    return [str(x.message)[:60] for x in w if issubclass(x.category, UserWarning)], r

_, o = said(lambda: TbCloudRTE(z, p, t, rh, np.array([31.4]), np.array([90.]), cloudy=True))
o.init_absmdl("R20SD")
liq = np.zeros(len(z)); liq[2:4] = .1
o.init_cloudy(np.array([[z[2]], [z[3]]]), np.zeros(len(z)), liq)
got = []
for m in ("R20", "R98", "R98", "R20"):
    LiqAbsModel.model = m
    got.append(bool(said(o.execute)[0]))
print(got)
sys.exit(0 if got == [False, True, True, False] else 1)
'''
