ID = 'c21-thousand-level-soundings'
PROPERTY = 'C21'
NEEDS = 'an archive with a sounding of a thousand levels or more (high-resolution radiosondes)'
BREAKS = 'levels are lost or attached to another sounding'
EDITS = [
    ('pyrtlib/apiwebservices/igra2.py', 'num_lev.append(int(line[32:36]))', 'num_lev.append(int(line[33:36]))'),
]
DEMO = r'''
import io
import sys
import zipfile
from datetime import datetime
import pyrtlib.apiwebservices.igra2 as m


def head(hour, n):
    return f'#SPM00060018 2022 06 22 {hour:02d} {hour:02d}00 {n:4d} ncdc-gts ncdc-gts  282300  -164700\n'


def level(k):
    return f'10 {k:5d} {100000 - 50 * k:6d}  {k:5d}  {200 - k // 10:5d}  {500:5d} {50:5d} {180:5d} {30:5d} \n'


text = head(0, 1003) + ''.join(level(k) for k in range(1003)) + head(12, 2) + level(0) + level(1)
buf = io.BytesIO()
with zipfile.ZipFile(buf, 'w') as f:
    f.writestr('x-data.txt', text)


class R:
    content = buf.getvalue()


m.IGRAUpperAir._get_path = lambda self, path, q=None: R
df, header = m.IGRAUpperAir.request_data(datetime(2022, 6, 22, 0), 'SPM00060018')
print(len(df), list(header.number_levels))
sys.exit(0 if len(df) == 1003 else 1)
'''
