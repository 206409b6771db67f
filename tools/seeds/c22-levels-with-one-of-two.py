ID = 'c22-levels-with-one-of-two'
PROPERTY = 'C22'
NEEDS = 'a sounding with a level that has a temperature but no dew point (or the reverse)'
BREAKS = 'the level is kept with a missing value'
EDITS = [
    ('pyrtlib/apiwebservices/wyomingupperair.py',
     "subset=('temperature', 'dewpoint'), how='any')",
     "subset=('temperature', 'dewpoint'), how='all')"),
]
DEMO = r'''
import sys
import numpy as np
from datetime import datetime
from pyrtlib.apiwebservices import WyomingUpperAir
rows = ['-' * 40, '   PRES   HGHT   TEMP   DWPT   RELH   MIXR', '    hPa     m      C      C      %    g/kg', '-' * 40,
        ' 1000.0    100   15.0   10.0     72   7.76', '  900.0    990    9.0                     ', '  850.0   1460    6.0    1.0     70   4.86']
meta = ['', 'Station identifier: LIRE', 'Station number: 16245', 'Observation time: 220622/1200', 'Station latitude: 41.65', 'Station longitude: 12.43', 'Station elevation: 32.0']
page = '<H2>16245 LIRE</H2><PRE>\n' + '\n'.join(rows) + '\n</PRE><H3>x</H3><PRE>' + '\n'.join(meta) + '</PRE>'


class R:
    text = page


WyomingUpperAir._get_path = lambda self, path, q=None: R
df = WyomingUpperAir.request_data(datetime(2022, 6, 22, 12), 'LIRE')
print(df[['pressure', 'temperature', 'dewpoint']])
sys.exit(0 if list(df.pressure) == [1000.0, 850.0] else 1)
'''
