ID = 'c12-lines-beyond-cutoff'
PROPERTY = 'C12'
NEEDS = 'oxygen absorption of the second-order line-mixing models (R20, R22 and relatives) above 800 GHz'
BREAKS = 'the lines more than 750 GHz below the frequency are left out, as for water vapour'
EDITS = [
    ('pyrtlib/absorption_model.py',
     '                d1 = del1 * del1 + df * df\n                d2 = del2 * del2 + df * df\n                sf1 = (df * gfac + del1 * y) / d1\n                sf2 = (df * gfac - del2 * y) / d2\n                summ += strr * (sf1 + sf2) * (freq / self.o2ll.f[k]) ** 2',
     '                d1 = del1 * del1 + df * df\n                d2 = del2 * del2 + df * df\n                sf1 = (df * gfac + del1 * y) / d1\n                sf2 = (df * gfac - del2 * y) / d2\n                summ += strr * (sf1 + sf2) * (freq / self.o2ll.f[k]) ** 2 if del1 < 750. else 0.0'),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.absorption_model import O2AbsModel
O2AbsModel.model = 'R20'
O2AbsModel.set_ll()
f, p, t = 850.0, 101.3, 288.0
got = O2AbsModel().o2_absorption(p, 300.0 / t, 1.0, f)[0]
ll = O2AbsModel.o2ll
far = [k for k in range(len(ll.f)) if f - ll.f[k] > 750]
ll.s300 = np.array(ll.s300, dtype=float)
ll.s300[far] *= 1000.0
scaled = O2AbsModel().o2_absorption(p, 300.0 / t, 1.0, f)[0]
print(len(far), got, scaled)
sys.exit(0 if abs(scaled - got) > 1e-6 * abs(got) else 1)
'''
