ID = 'c22-zero-degrees'
PROPERTY = 'C22'
NEEDS = 'a sounding with levels whose temperature or dew point is exactly 0.0 C'
BREAKS = 'those levels are taken for missing'
EDITS = [
    ('pyrtlib/apiwebservices/wyomingupperair.py',
     "        df = df.dropna(subset=('temperature', 'dewpoint'), how='any').reset_index(drop=True)\n",
     "        df = df[(df['temperature'].fillna(0.0) * df['dewpoint'].fillna(0.0)) != 0.0].reset_index(drop=True)\n"),
]
DEMO = r'''
import sys
import numpy as np
from datetime import datetime
from pyrtlib.apiwebservices import WyomingUpperAir
rows = ['-' * 40, '   PRES   HGHT   TEMP   DWPT   RELH   MIXR', '    hPa     m      C      C      %    g/kg', '-' * 40,
        ' 1000.0    100   15.0   10.0     72   7.76', '  900.0    990    0.0   -5.0     69   2.93', '  850.0   1460    6.0    1.0     70   4.86']
meta = ['', 'Station identifier: LIRE', 'Station number: 16245', 'Observation time: 220622/1200', 'Station latitude: 41.65', 'Station longitude: 12.43', 'Station elevation: 32.0']
page = '<H2>16245 LIRE</H2><PRE>\n' + '\n'.join(rows) + '\n</PRE><H3>x</H3><PRE>' + '\n'.join(meta) + '</PRE>'


class R:
    text = page


WyomingUpperAir._get_path = lambda self, path, q=None: R
df = WyomingUpperAir.request_data(datetime(2022, 6, 22, 12), 'LIRE')
print(df[['pressure', 'temperature', 'dewpoint']])
sys.exit(0 if list(df.pressure) == [1000.0, 900.0, 850.0] else 1)
'''
