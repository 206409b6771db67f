ID = 'c27-list-kept'
PROPERTY = 'C27'
NEEDS = 'a caller that changes the list of a satellite instrument and asks for it again'
BREAKS = 'the second list has the changes of the first'
EDITS = [
    ('pyrtlib/utils.py',
     "    instrument = instrument.upper()\n\n    if instrument == 'SAPHIR':\n",
     "    instrument = instrument.upper()\n    kept = get_frequencies_sat.__dict__\n    if instrument in kept:\n        return kept[instrument]\n\n    if instrument == 'SAPHIR':\n"),
    ('pyrtlib/utils.py',
     '        raise ValueError("Instrument not found")\n\n    return freq',
     '        raise ValueError("Instrument not found")\n\n    kept[instrument] = freq\n    return kept[instrument]'),
]
DEMO = r'''
import sys
from pyrtlib.utils import get_frequencies_sat
a = get_frequencies_sat('mws'); x = a[0]; a[0] = 1.0
b = get_frequencies_sat('MWS')
sys.exit(0 if b[0] == x else 1)
'''
