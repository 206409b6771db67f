ID = 'c13-nitrogen-frequency-capped'
PROPERTY = 'C13'
NEEDS = 'nitrogen absorption above 900 GHz for any model but R98 and MWL24'
BREAKS = 'the frequency dependence stops falling'
EDITS = [
    ('pyrtlib/absorption_model.py',
     '        fdepen = 0.5 + 0.5 / (1.0 + (f / 450.0) ** 2)',
     '        fdepen = 0.5 + 0.5 / (1.0 + min(f / 450.0, 2.0) ** 2)'),
]
DEMO = r'''
import sys
from pyrtlib.absorption_model import N2AbsModel
N2AbsModel.model = 'R20'
r = N2AbsModel.n2_absorption(250.0, 500.0, 950.0) / N2AbsModel.n2_absorption(250.0, 500.0, 400.0)
w = (0.5 + 0.5 / (1 + (950 / 450.) ** 2)) * 950 ** 2 / ((0.5 + 0.5 / (1 + (400 / 450.) ** 2)) * 400 ** 2)
print(r, w)
sys.exit(0 if abs(r / w - 1) < 1e-9 else 1)
'''
