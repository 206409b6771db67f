ID = 'c18-heights-shared'
PROPERTY = 'C18'
NEEDS = 'a caller that changes the heights of one standard atmosphere (units, datum) and asks for another'
BREAKS = 'the heights of all atmospheres are one shared array'
EDITS = [
    ('pyrtlib/climatology/atmospheric_profiles.py',
     '        a = mtx[:, 0]\n',
     "        if not hasattr(AtmosphericProfiles, '_altitude'):\n            AtmosphericProfiles._altitude = np.copy(mtx[:, 0])\n        a = AtmosphericProfiles._altitude\n"),
]
DEMO = r'''
import sys
from pyrtlib.climatology import AtmosphericProfiles as atmp
z = atmp.gl_atm(atmp.TROPICAL)[0]
z *= 1000
y = atmp.gl_atm(atmp.US_STANDARD)[0]
print(y[:4])
sys.exit(0 if y[1] == 1.0 else 1)
'''
