ID = 'c16-oxygen-exponent-ignored'
PROPERTY = 'C16'
NEEDS = 'a perturbed temperature exponent of the oxygen widths (X05)'
BREAKS = 'the perturbation has no effect'
EDITS = [
    ('pyrtlib/absorption_model.py',
     "            self.o2ll.x = amu['X05'].value",
     "            self.o2ll.x = self.o2ll.x if amu['X05'].uncer == 0 else amu['X05'].value"),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.absorption_model import O2AbsModel
from pyrtlib.uncertainty import SpectroscopicParameter
amu = SpectroscopicParameter.oxygen_parameters('R19')
a = O2AbsModel().o2_absorption(90.0, 300.0 / 230.0, 0.5, 60.3, amu)[0]
amu['X05'].value = 0.9
b = O2AbsModel().o2_absorption(90.0, 300.0 / 230.0, 0.5, 60.3, amu)[0]
print(a, b)
sys.exit(0 if a != b else 1)
'''
