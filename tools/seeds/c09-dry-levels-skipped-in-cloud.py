ID = 'c09-dry-levels-skipped-in-cloud'
PROPERTY = 'C09'
NEEDS = 'a cloud with a level of zero density inside it or at its top'
BREAKS = 'the layer below such a level is left out of the integrated density'
EDITS = [
    ('pyrtlib/rt_equation.py',
     '            for j in range(int(lbase[i]) + 1, int(ltop[i]) + 1):\n                scld +=',
     '            for j in range(int(lbase[i]) + 1, int(ltop[i]) + 1):\n                if dencld[j] == 0:\n                    continue\n                scld +='),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.rt_equation import RTEquation
den = np.array([0.0, 0.2, 0.4, 0.0, 0.0])
ds = np.array([0.0, 1.0, 1.0, 1.0, 1.0])
got = RTEquation.cloud_integrated_density(den, ds, np.array([1.0]), np.array([3.0]))
want = 0.1 * (0.3 + 0.2)
print(got, want)
sys.exit(0 if abs(got - want) < 1e-12 else 1)
'''
