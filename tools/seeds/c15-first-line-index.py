ID = 'c15-first-line-index'
PROPERTY = 'C15'
NEEDS = 'a perturbation asked for the first line of a parameter (index 0)'
BREAKS = 'all lines are perturbed'
EDITS = [
    ('pyrtlib/uncertainty/absmod_uncertainty.py',
     '        param_index = index  # - 1 if index else index\n',
     '        param_index = index if index else slice(None)\n'),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.uncertainty import AbsModUncertainty, SpectroscopicParameter
from copy import deepcopy
s = SpectroscopicParameter.water_parameters('R17')
SpectroscopicParameter.set_parameters(s)
s['gamma_a'].uncer[:3] = 0.04
q = AbsModUncertainty.parameters_perturbation(['gamma_a'], 'max', index=0)
d = np.nonzero(q['gamma_a'].value != s['gamma_a'].value)[0]
print(d)
sys.exit(0 if list(d) == [0] else 1)
'''
