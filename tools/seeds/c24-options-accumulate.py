ID = 'c24-options-accumulate'
PROPERTY = 'C24'
NEEDS = 'session options set twice, the second time without one of the first'
BREAKS = 'options of earlier sessions stay in force for later endpoints'
EDITS = [
    ('pyrtlib/apiwebservices/webservices.py',
     '        self.options = kwargs\n',
     '        self.options.update(kwargs)\n'),
]
DEMO = r'''
import sys
from pyrtlib.apiwebservices.webservices import HTTPSessionManager
m = HTTPSessionManager()
m.set_session_options(verify=False)
m.set_session_options(timeout=3)
s = m.create_session()
print(s.verify)
sys.exit(0 if s.verify is True else 1)
'''
