"""Pin the shipped line lists as the specification's tables (run once, at the base commit).

Column meanings follow Rosenkranz's line files; they are written here once and
for all, independently of how the library slices the matrices."""
import json, os, sys
from netCDF4 import Dataset
import numpy as np
d = sys.argv[1]
out = sys.argv[2]
S = lambda a: [repr(float(v)) for v in np.atleast_1d(np.asarray(a, dtype=float))]
H = {}
nc = Dataset(os.path.join(d, 'h2o_lineshape.nc'))
for m, g in nc.groups.items():
    a = g.variables['mtx'][:].data
    c = g.variables['ctr'][:].data
    t = dict(reftcon=S(c[0]), cf=S(c[1]), xcf=S(c[2]), cs=S(c[3]), xcs=S(c[4]),
             reftline=S(g.variables['reftline'][:].data.item()))
    if m in ('R98',):
        cols = ['fl', 's1', 'b2', 'w0', 'x', 'w0s', 'xs']
    elif m in ('R03', 'R16', 'R17'):
        cols = ['fl', 's1', 'b2', 'w0', 'x', 'sr', 'w0s', 'xs']
    else:
        cols = ['fl', 's1', 'b2', 'w0', 'x', 'w0s', 'xs', 'sh', 'xh', 'shs', 'xhs', 'aair', 'aself']
        if m == 'R18':
            cols = cols[:11]
        if m in ('R19SD', 'R20SD'):
            cols += ['w2', 'w2s']
        elif m in ('R21SD', 'R22SD', 'R23SD', 'R24', 'MWL24'):
            cols += ['w2', 'xw2', 'w2s', 'xw2s', 'd2', 'd2s']
    for k, n in enumerate(cols):
        t[n] = S(a[:, k + 1])
    if m == 'R20SD':
        for n in ('d2air', 'd2self'):
            t[n] = S(g.variables[n][:].data.item())
    H[m] = t
O = {}
nc = Dataset(os.path.join(d, 'o2_lineshape.nc'))
for m, g in nc.groups.items():
    O[m] = {v: S(g.variables[v][:].data) for v in g.variables}
Z = {}
nc = Dataset(os.path.join(d, 'o3_lineshape.nc'))
for m, g in nc.groups.items():
    a = g.variables['mtx'][:].data
    Z[m] = dict(reftline=S(g.variables['reftline'][:].data.item()))
    for k, n in enumerate(['fl', 's1', 'b', 'w', 'x', 'sr']):
        v = a[:, k + 1] / 1000.0 if n == 'w' else a[:, k + 1]
        Z[m][n] = S(v)
for n, t in (('h2o', H), ('o2', O), ('o3', Z)):
    json.dump(t, open(os.path.join(out, n + '.json'), 'w'), indent=0)
