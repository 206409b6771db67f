ID = 'c08-angle-labels-rounded'
PROPERTY = 'C08'
NEEDS = 'angles given with more than one decimal'
BREAKS = 'rows carry a rounded angle, so two close angles get the same label'
EDITS = [
    ('pyrtlib/tb_spectrum.py',
     "'angle': np.full((len(self.frq),), a)",
     "'angle': np.full((len(self.frq),), np.round(a, 1))"),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.climatology import AtmosphericProfiles as atmp
from pyrtlib.utils import ppmv2gkg, mr2rh
from pyrtlib.tb_spectrum import TbCloudRTE
z, p, _, t, md = atmp.gl_atm(atmp.TROPICAL)
rh = mr2rh(p, t, ppmv2gkg(md[:, atmp.H2O], atmp.H2O))[0] / 100
r = TbCloudRTE(z, p, t, rh, np.array([31.4]), angles=np.array([14.48, 90.0]), absmdl='R17').execute()
print(list(r.angle))
sys.exit(0 if list(r.angle) == [14.48, 90.0] else 1)
'''
