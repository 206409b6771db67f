ID = 'c12-r19-negative-not-clipped'
PROPERTY = 'C12'
NEEDS = 'model R19 or R19SD in hot air at surface pressure near 260 GHz, where the mixed lines sum to less than zero'
BREAKS = 'oxygen absorption is negative instead of zero'
EDITS = [
    ('pyrtlib/absorption_model.py',
     "        if O2AbsModel.model != 'R98':\n            o2abs",
     "        if O2AbsModel.model not in ['R98', 'R19', 'R19SD']:\n            o2abs"),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.absorption_model import O2AbsModel
O2AbsModel.model = 'R19'
O2AbsModel.set_ll()
a = O2AbsModel().o2_absorption(101.3, 300.0 / 330.0, 0.1, 258.5)
print(a)
sys.exit(0 if a[0] + a[1] >= 0 else 1)
'''
