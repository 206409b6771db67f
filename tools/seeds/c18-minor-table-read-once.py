ID = 'c18-minor-table-read-once'
PROPERTY = 'C18'
NEEDS = 'a returned profile of a minor gas is changed by its owner and the gas is asked for again'
BREAKS = 'the change shows up in later results'
EDITS = [
    ('pyrtlib/climatology/atmospheric_profiles.py',
     '        mtx = np.loadtxt(os.path.join(path, "gas_minor.dat"))\n',
     '        mtx = getattr(AtmosphericProfiles, \'_minor\', None)\n        if mtx is None:\n            mtx = AtmosphericProfiles._minor = np.loadtxt(os.path.join(path, "gas_minor.dat"))\n'),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.climatology import AtmosphericProfiles as atmp
a = atmp.gl_atm_minor(atmp.SO2)
keep = a.copy()
a *= 1e3
b = atmp.gl_atm_minor(atmp.SO2)
print(keep[:3], b[:3])
sys.exit(0 if np.array_equal(keep, b) else 1)
'''
