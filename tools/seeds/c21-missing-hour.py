ID = 'c21-missing-hour'
PROPERTY = 'C21'
NEEDS = 'a sounding whose hour is not known (99), asked for by its day with other soundings'
BREAKS = 'it takes the hour of the sounding before it'
EDITS = [
    ('pyrtlib/apiwebservices/igra2.py',
     '                except ValueError:\n                    date = datetime(year, month, day)\n',
     '                except ValueError:\n                    date = datetime(year, month, day, dates[-1].hour if dates else 0)\n'),
]
DEMO = r'''
import sys, io, zipfile
from datetime import datetime
from pyrtlib.apiwebservices.igra2 import IGRAUpperAir
def head(d, h, n):
    return '#AUM00011111 2020 06 %02d %s %s %4d ncdc6310 ncdc6310  481100   164500\n' % (d, h, '1200' if h != '99' else '9999', n)
lev = '21 -9999 100000   110B  250A-9999    80   230    31 \n'
text = ''.join(head(d, h, 1) + lev for d, h in [(3, '12'), (4, '99'), (4, '12'), (5, '00')])
class R: pass
def fake(self, path, querystrings=None):
    b = io.BytesIO()
    with zipfile.ZipFile(b, 'w') as z:
        z.writestr('x.txt', text)
    r = R(); r.content = b.getvalue(); return r
IGRAUpperAir._get_path = fake
df, hd = IGRAUpperAir.request_data([datetime(2020, 6, 3), datetime(2020, 6, 6)], 'AUM00011111')
print([str(x) for x in hd['date']])
sys.exit(0 if [str(x) for x in hd['date']] == ['2020-06-03 12:00:00', '2020-06-04 00:00:00', '2020-06-04 12:00:00', '2020-06-05 00:00:00'] else 1)
'''
