ID = 'c24-partial-content-accepted'
PROPERTY = 'C24'
NEEDS = 'a server that answers with a status other than 200 below 400 (201, 204, 206, 304)'
BREAKS = 'the reply is returned as if it were the resource'
EDITS = [
    ('pyrtlib/apiwebservices/webservices.py',
     '        if resp.status_code != 200:',
     '        if not resp.ok:'),
]
DEMO = r'''
import sys
import numpy as np
from pyrtlib.apiwebservices.webservices import HTTPEndPoint
import requests


class S:
    def get(self, path, params=None):
        r = requests.Response()
        r.status_code, r._content, r.headers['Content-Type'] = 206, b'part', 'text/plain'
        r.request = requests.Request('GET', path).prepare()
        return r


e = HTTPEndPoint('http://localhost/x/')
e._session = S()
try:
    e._get_path('y')
except requests.HTTPError as x:
    print(x)
    sys.exit(0)
print('accepted')
sys.exit(1)
'''
