ID = 'c24-base-address-replaced'
PROPERTY = 'C24'
NEEDS = 'an endpoint whose base address does not end with a slash'
BREAKS = 'the last part of the base address is dropped'
EDITS = [
    ('pyrtlib/apiwebservices/webservices.py', '        return posixpath.join(self._base, path)', '        return requests.compat.urljoin(self._base, path)'),
]
DEMO = r'''
import sys
from pyrtlib.apiwebservices.webservices import HTTPEndPoint
u = HTTPEndPoint('http://localhost/a/b')._url_path('c.txt')
print(u)
sys.exit(0 if u == 'http://localhost/a/b/c.txt' else 1)
'''
