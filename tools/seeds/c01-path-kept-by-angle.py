ID = 'c01-path-kept-by-angle'
PROPERTY = 'C01'
NEEDS = 'two ray-traced simulations at one angle, of profiles with equal lengths and equal tops but different contents'
BREAKS = 'the second simulation integrates along the slant path of the first'
EDITS = [
    ('pyrtlib/rt_equation.py',
     '        costh0 = np.cos(theta0)\n',
     "        key = (angle, nl, float(z[0]), float(z[-1]), float(z0))\n        paths = RTEquation.__dict__.get('_paths')\n        if paths is None:\n            RTEquation._paths = paths = {}\n        if key in paths:\n            return paths[key].copy()\n        costh0 = np.cos(theta0)\n"),
    ('pyrtlib/rt_equation.py',
     '            tanthl = np.copy(tanth)\n\n        return np.asarray(ds)\n',
     '            tanthl = np.copy(tanth)\n\n        paths[key] = np.array(ds)\n        return ds\n'),
]
DEMO = r'''
import sys, warnings
import numpy as np
from pyrtlib.tb_spectrum import TbCloudRTE
from pyrtlib.climatology import AtmosphericProfiles as atmp
from pyrtlib.utils import ppmv2gkg, mr2rh
def profile(a=atmp.TROPICAL, n=None):
    z, p, d, t, md = atmp.gl_atm(a)
    rh = mr2rh(p, t, ppmv2gkg(md[:, atmp.H2O], atmp.H2O))[0] / 100
    return (z, p, t, rh) if n is None else (z[:n], p[:n], t[:n], rh[:n])

def run(q):
    r = TbCloudRTE(*q, np.array([22.24, 60.0]), np.array([11.0]), ray_tracing=True)
    r.satellite = False
    r.init_absmdl('R20')
    return r.execute().tbtotal.values
z, p, t, rh = profile()
z2 = z.copy(); z2[1:-1] += 0.1 * np.sin(np.arange(1, len(z) - 1))
b = run((z2, p, t, rh))
run((z, p, t, rh))
b2 = run((z2, p, t, rh))
import subprocess
RTE = __import__('pyrtlib.rt_equation', fromlist=['x']).RTEquation
a = run((z, p, t, rh * 0.1))
# straight computation of the second one in a fresh interpreter
if len(sys.argv) > 1:
    print(repr(list(run((z2[::1], p, t, rh)))))
    sys.exit()
code = open(__file__).read().split('z, p, t, rh = profile()')[0] + """
z, p, t, rh = profile()
print(repr([float(x) for x in run((z, p, t, rh * 0.1))]))
"""
out = subprocess.run([sys.executable, '-W', 'ignore', '-c', code], capture_output=True, text=True).stdout
fresh = eval(out)
print(a, fresh)
sys.exit(0 if np.allclose(a, fresh, rtol=0, atol=1e-9) else 1)
'''
