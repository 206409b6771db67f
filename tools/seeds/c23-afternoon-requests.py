ID = 'c23-afternoon-requests'
PROPERTY = 'C23'
NEEDS = 'a request for an afternoon hour'
BREAKS = 'the request names the hour twelve hours earlier'
EDITS = [
    ('pyrtlib/apiwebservices/erafive.py', "                'time': '{}:00'.format(time.hour),", "                'time': '{:%I}:00'.format(time),"),
]
DEMO = r'''
import sys
from datetime import datetime
import pyrtlib.apiwebservices.erafive as m
asked = []


class C:
    def retrieve(self, name, request, target=None):
        asked.append(request)


class M:
    Client = C


m.cdsapi = M
m.ERA5Reanalysis.request_data('/nonexistent', datetime(2020, 2, 22, 18), (15.8, 38.2))
print(asked[0]['time'])
sys.exit(0 if int(asked[0]['time'].split(':')[0]) == 18 else 1)
'''
