ID = 'c11-continuum-node'
PROPERTY = 'C11'
NEEDS = 'water vapour with the MT_CKD self-continuum (R23SD, R24) above 600 GHz'
BREAKS = 'a coefficient with two digits exchanged: the self continuum is up to 8 % off'
EDITS = [
    ('pyrtlib/absorption_model.py',
     '                           2.49e-21, 2.178e-21, 1.863e-21])',
     '                           2.49e-21, 2.178e-21, 1.683e-21])'),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.absorption_model import H2OAbsModel
g = float(H2OAbsModel().h2o_continuum(299.792458 * 3.5, 300. / 296., 1)[0]) / 6.532e12 / 1e-21
w = 0.5 * (2.49 + 2.178) + 0.0625 * (2.49 + 2.178 - 2.731 - 1.863)
print(g, w)
sys.exit(0 if abs(g / w - 1) < 1e-3 else 1)
'''
