ID = 'c15-unperturbed-set-shared'
PROPERTY = 'C15'
NEEDS = "a set asked for with mode 'non', edited by its owner, followed by another perturbation"
BREAKS = 'the reference set changes with it'
EDITS = [
    ('pyrtlib/uncertainty/absmod_uncertainty.py',
     '            amu_copy = deepcopy(SpectroscopicParameter.SP)\n',
     "            amu_copy = SpectroscopicParameter.SP if mode == 'non' else deepcopy(SpectroscopicParameter.SP)\n"),
]
DEMO = r'''
import sys
from pyrtlib.uncertainty import AbsModUncertainty, SpectroscopicParameter
ref = SpectroscopicParameter.water_parameters('R18')
SpectroscopicParameter.set_parameters(ref)
x0 = float(ref['con_Xs'].value)
mine = AbsModUncertainty.parameters_perturbation([], 'non', index=0)
mine['con_Xs'].value = x0 + 1
again = AbsModUncertainty.parameters_perturbation(['gamma_a'], 'max', index=0)
print(again['con_Xs'].value, x0)
sys.exit(0 if again['con_Xs'].value == x0 else 1)
'''
