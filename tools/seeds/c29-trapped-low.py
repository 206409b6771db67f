ID = 'c29-trapped-low'
PROPERTY = 'C29'
NEEDS = 'a ray trapped in the layer above the antenna (warm moist air under dry air, a low elevation angle)'
BREAKS = 'a ray trapped below the second level is given up without a warning'
EDITS = [
    ('pyrtlib/rt_equation.py',
     '            if argth <= 0:\n                warnings.warn(\n                    ',
     '            if argth <= 0:\n                if i == 1:\n                    return ds\n                warnings.warn(\n                    '),
]
DEMO = r'''
import sys, warnings, io, contextlib
import numpy as np
from pyrtlib.tb_spectrum import TbCloudRTE
from pyrtlib.absorption_model import LiqAbsModel
from pyrtlib.climatology import AtmosphericProfiles as atmp
from pyrtlib.utils import ppmv2gkg, mr2rh
z, p, d, t, md = atmp.gl_atm(atmp.TROPICAL)
rh = mr2rh(p, t, ppmv2gkg(md[:, atmp.H2O], atmp.H2O))[0] / 100
def said(f):
    with warnings.catch_warnings(record=True) as w, contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("always")
        r = f()
    return [str(x.message)[:60] for x in w if issubclass(x.category, UserWarning)], r

zz = z.copy(); zz[1:] = np.maximum(z[1:], .1); zz[1] = .02
pp, tt, rr = p.copy(), t.copy(), np.full(len(z), .01)
pp[1] = pp[0] * .998; tt[:2] = [312., 311.]; rr[:2] = [1., .05]
_, o = said(lambda: TbCloudRTE(zz, pp, tt, rr, np.array([31.4]), np.array([.3]), ray_tracing=True, from_sat=False))
o.init_absmdl("R20SD")
w, _ = said(o.execute)
print(w)
sys.exit(0 if any("uct" in x or "ray" in x for x in w) else 1)
'''
