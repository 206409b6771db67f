ID = 'c09-liquid-only-above-threshold'
PROPERTY = 'C09'
NEEDS = 'a thin cloud, below one milligram of liquid per cubic metre'
BREAKS = 'its liquid does not absorb'
EDITS = [
    ('pyrtlib/rt_equation.py', '            if denl[i] > 0:', '            if denl[i] > 1e-3:'),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.rt_equation import RTEquation
from pyrtlib.absorption_model import LiqAbsModel
LiqAbsModel.model = 'R20'
a, b = RTEquation.cloudy_absorption(np.array([280.0]), np.array([5e-4]), np.array([0.0]), 90.0)
print(a)
sys.exit(0 if a[0] > 0 else 1)
'''
