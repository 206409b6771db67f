ID = 'c13-r22-ozone-window'
PROPERTY = 'C13'
NEEDS = 'ozone model R22 at a frequency between 0.5 and 1 GHz above an ozone line'
BREAKS = 'the line is left out'
EDITS = [
    ('pyrtlib/absorption_model.py',
     '                if self.o3ll.fl[k] >= (f - 1.0):\n                    widthc = self.o3ll.w[k] * p * ti ** self.o3ll.x[k]\n                    betad =',
     '                if self.o3ll.fl[k] >= (f - 0.5):\n                    widthc = self.o3ll.w[k] * p * ti ** self.o3ll.x[k]\n                    betad ='),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.absorption_model import O3AbsModel
O3AbsModel.model = 'R22'
O3AbsModel.set_ll()
f = 110.836 + 0.7
got = float(O3AbsModel().o3_absorption(230.0, 30.0, f, np.float64(4e18)))
ll = O3AbsModel.o3ll
near = [x for x in ll.fl if f - 1.0 <= x <= f + 1.0]
# far in the wing the line is Lorentzian
s = 0.0
ti = ll.reftline / 230.0
for k in range(len(ll.fl)):
    if f - 1.0 <= ll.fl[k] <= f + 1.0:
        w = ll.w[k] * 30.0 * ti ** ll.x[k]
        s += ll.s1[k] * np.exp(ll.b[k] * (1 - ti)) * w / ((f - ll.fl[k]) ** 2 + w * w)
want = 3.1831e-05 * s * (1 - np.exp(-1008.0 / 230.0)) * ti ** 2.5 * 1e-6 * 4e18
print(near, got, want)
sys.exit(0 if abs(got - want) <= 1e-2 * want else 1)
'''
