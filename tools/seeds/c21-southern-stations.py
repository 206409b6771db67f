ID = 'c21-southern-stations'
PROPERTY = 'C21'
NEEDS = 'a station between 10 and 90 degrees south'
BREAKS = 'the latitude loses its sign'
EDITS = [
    ('pyrtlib/apiwebservices/igra2.py',
     '(27, 31), (32, 36), (37, 45), (46, 54), (55, 62), (63, 71)]',
     '(27, 31), (32, 36), (37, 45), (46, 54), (56, 62), (63, 71)]'),
]
DEMO = r'''
import sys
import numpy as np
from datetime import datetime
import io, zipfile
from pyrtlib.apiwebservices import IGRAUpperAir
head = '#AYM00089532 2022 06 22 00 2330    1          ncdc-gts -690053   395818'
body = '21 -9999  98500B  120B -155B  700    50   120    80 '
head = head[:31] + ' ' + '   1' + ' ' + 'ncdc-gts' + ' ' + '        ' + ' ' + '-690053' + ' ' + '  395818'


class R:
    content = b''


buf = io.BytesIO()
with zipfile.ZipFile(buf, 'w') as f:
    f.writestr('a.txt', head + '\n' + body + '\n')
R.content = buf.getvalue()
IGRAUpperAir._get_path = lambda self, path, q=None: R
df, h = IGRAUpperAir.request_data(datetime(2022, 6, 22, 0), 'AYM00089532')
print(h.latitude.values, h.longitude.values)
sys.exit(0 if h.latitude.values[0] == -69.0053 and h.longitude.values[0] == 39.5818 else 1)
'''
