ID = 'c22-single-digit-days'
PROPERTY = 'C22'
NEEDS = 'a sounding of the first nine days of a month'
BREAKS = 'the request names the wrong day and hour'
EDITS = [
    ('pyrtlib/apiwebservices/wyomingupperair.py',
     "                '&YEAR={time:%Y}&MONTH={time:%m}&FROM={time:%d%H}&TO={time:%d%H}'",
     "                '&YEAR={time:%Y}&MONTH={time:%m}&FROM={time.day}{time:%H}&TO={time.day}{time:%H}'"),
]
DEMO = r'''
import sys
from datetime import datetime
from pyrtlib.apiwebservices import WyomingUpperAir
seen = []


class R:
    text = 'x'


WyomingUpperAir._get_path = lambda self, path, q=None: (seen.append(path), R)[1]
WyomingUpperAir()._get_data_raw(datetime(2022, 6, 3, 12), 'LIRE')
print(seen[0])
sys.exit(0 if 'FROM=0312' in seen[0] and 'TO=0312' in seen[0] else 1)
'''
