ID = 'c26-normalised-in-place'
PROPERTY = 'C26'
NEEDS = 'plotting weighting functions with normalisation and using them afterwards'
BREAKS = 'the weighting functions are divided by their maxima'
EDITS = [
    ('pyrtlib/weighting_functions.py',
     "            if self.satellite:\n                line_s = 'dashed' if y[np.argmax(wgt[i, 1:])] == 0. else None\n                plt.plot(wgt[i, 1:]/normalize[i], y, linestyle=line_s,\n                         label=f'{frequenciy:.2f} GHz {y[np.argmax(wgt[i, 1:])]:.0f} {units}')\n",
     "            if self.satellite:\n                line_s = 'dashed' if y[np.argmax(wgt[i, 1:])] == 0. else None\n                wgt[i, :] /= normalize[i]\n                plt.plot(wgt[i, 1:], y, linestyle=line_s,\n                         label=f'{frequenciy:.2f} GHz {y[np.argmax(wgt[i, 1:])]:.0f} {units}')\n"),
]
DEMO = r'''
import sys, warnings
import numpy as np
from pyrtlib.tb_spectrum import TbCloudRTE
from pyrtlib.climatology import AtmosphericProfiles as atmp
from pyrtlib.utils import ppmv2gkg, mr2rh
def profile(a=atmp.TROPICAL, n=None):
    z, p, d, t, md = atmp.gl_atm(a)
    rh = mr2rh(p, t, ppmv2gkg(md[:, atmp.H2O], atmp.H2O))[0] / 100
    return (z, p, t, rh) if n is None else (z[:n], p[:n], t[:n], rh[:n])

from pyrtlib.weighting_functions import WeightingFunctions
z, p, t, rh = profile()
w = WeightingFunctions(z, p, t, rh)
w.frequencies = np.array([50.5, 53.2])
w.satellite = True
w.model = 'R20'
a = w.generate_wf()
b = a.copy()
w.plot_wf(a, normalized=True)
print(abs(a - b).max())
sys.exit(0 if np.array_equal(a, b) else 1)
'''
