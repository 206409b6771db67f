ID = 'c16-nl-mixing-first-line'
PROPERTY = 'C16'
NEEDS = 'a perturbed mixing coefficient of the weak oxygen lines (Y300_NL) at the first of them, models up to R19'
BREAKS = 'the perturbation has no effect'
EDITS = [
    ('pyrtlib/absorption_model.py',
     "                self.o2ll.y300[34:49] = amu['Y300_NL'].value[34:49]",
     "                self.o2ll.y300[35:49] = amu['Y300_NL'].value[35:49]"),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.absorption_model import O2AbsModel
from pyrtlib.uncertainty import SpectroscopicParameter
amu = SpectroscopicParameter.oxygen_parameters('R18')
m = O2AbsModel()
a = m.o2_absorption(90.0, 300.0 / 280.0, 0.5, 60.3, amu)[0]
amu['Y300_NL'].value[34] += 0.5
b = O2AbsModel().o2_absorption(90.0, 300.0 / 280.0, 0.5, 60.3, amu)[0]
print(a, b)
sys.exit(0 if a != b else 1)
'''
