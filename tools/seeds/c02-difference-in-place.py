ID = 'c02-difference-in-place'
PROPERTY = 'C02'
NEEDS = 'the difference of weighted arrays with a weight other than one, the arrays being used again'
BREAKS = 'the first array handed in is scaled in place'
EDITS = [
    ('pyrtlib/uncertainty/absmod_uncertainty.py',
     '            F = a * A - b * B\n',
     '            F = A\n            F *= a\n            F = F - b * B\n'),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.uncertainty import AbsModUncertainty as A
a, b, sa, sb = np.array([1., 2.]), np.array([3., 5.]), np.array([.1, .2]), np.array([.3, .1])
x = A.uncertainty_propagation('aA-bB', a, b, sa, sb, 2., 3.)[0]
y = A.uncertainty_propagation('aA-bB', a, b, sa, sb, 2., 3.)[0]
print(x, y, a)
sys.exit(0 if np.array_equal(x, y) and np.array_equal(a, [1., 2.]) else 1)
'''
