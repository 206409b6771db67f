ID = 'c28-single-precision'
PROPERTY = 'C28'
NEEDS = 'the entries of the 2018 Cimini matrix, digit by digit'
BREAKS = 'they are kept in single precision: covariances below 1e-38 vanish, the rest lose digits and the matrix its positive definiteness'
EDITS = [
    ('pyrtlib/uncertainty/covariance_matrix/__init__.py',
     "R17_111 = np.asarray(nc.variables['Cov_p'][:])\n",
     "R17_111 = np.asarray(nc.variables['Cov_p'][:], dtype=np.float32)\n"),
]
DEMO = r'''
import sys, os
import numpy as np
from netCDF4 import Dataset
from pyrtlib.uncertainty import covariance_matrix as c
f = Dataset(os.path.join(os.path.dirname(c.__file__), 'R17', 'Cov_parameters_Cimini_et_al_2018_V1.1.nc'))['Cov_p'][:]
d = np.abs(np.asarray(c.R17_111, float) - np.asarray(f, float)).max()
print(d)
sys.exit(0 if d == 0 else 1)
'''
