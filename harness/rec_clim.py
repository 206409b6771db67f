"""Histories of climatology calls: rec_clim.py OUT kind n

A history works with one ProfileExtrapolation object at a time; whatever is
returned may be overwritten by the caller afterwards."""
import sys
from hlib import *
from pyrtlib.climatology import ProfileExtrapolation, AtmosphericProfiles as A

out = Out(sys.argv[1])
kind, n = sys.argv[2], int(sys.argv[3])
rng = np.random.default_rng([SEED, sum(map(ord, kind))])
EDGES = [0, 8.5, 10, 11, 13, 15, 17, 20, 23, 30, 32, 33, 47, 48, 50, 51, 52, 53, 54, 71, 72, 79, 80, 86, 91, 100,
         11.019, 20.063, 32.162, 47.35, 51.413, 71.802]


def flat(x):
    return [num(v) for v in np.ravel(np.asarray(x, dtype=float))]


def heights():
    h = rng.choice(EDGES, 4) + rng.choice([0, 0, 1e-6, -1e-6, .01, -.01], 4)
    h = np.concatenate([h, rng.uniform(0, 100, 5)])
    h = np.clip(h, 0, 100)
    k = int(rng.integers(4))
    if k == 0:
        h = np.linspace(0, 100, 101)
    if k == 1:
        h = h[:1]
    if k == 2:
        h = np.array([float(rng.choice(EDGES))])
    return h


def latitude():
    return float(rng.choice([0, 19.9, 20, 20.1, 21.99, 22, 22.01, 44.99, 45, 45.01, 60, 90, rng.uniform(0, 90), rng.uniform(20, 22)])
                 * rng.choice([1, -1]))


def profile():
    m = int(rng.integers(2, 40))
    top = float(rng.choice([rng.uniform(1, 30), rng.uniform(30, 50), 46.8, 43.6, 49.9, 50.0, 47.0, 50.5, 60.0, rng.uniform(50, 99), 100.0, 99.9,
                            25.0, 20.0, rng.uniform(100, 120), 96.0]))
    z = np.unique(np.concatenate([rng.uniform(0, top, m), [rng.choice([0.0, rng.uniform(0, top / 2)]), top]]))
    z = z[z <= top]
    rh = rng.uniform(0, float(rng.choice([1, 1, 1.2])), len(z)) * (rng.random(len(z)) > .05)
    return z, 1013 * np.exp(-z / 7) * rng.uniform(.9, 1.1), rng.uniform(190, 300, len(z)), rh


class Hist:
    def __init__(self):
        self.calls = []
        self.ex = ProfileExtrapolation()
        self.back = []

    def call(self, op, fn, args=(), many=False, **k):
        before = [np.array(a, copy=True) for a in args]
        with np.errstate(all='ignore'):
            r, exc = attempt(fn)
        res = [] if r is None else (list(r) if many else [r])
        kept = all(np.array_equal(a, b) for a, b in zip(args, before))
        self.calls.append(dict(op=op, exc=exc, out=[flat(x) for x in res], kept=kept, **k))
        self.back += [x for x in res if isinstance(x, np.ndarray)]
        if rng.random() < 0.35:       # the caller overwrites what it got
            for x in self.back:
                if x.flags.writeable and x.ndim and not any(np.shares_memory(x, a) for a in args):
                    x[...] = -77.0
            self.back = []
        return r


def split(t):
    a, p, d, T, md = t
    return [a, p, d, T] + [md[:, i] for i in range(md.shape[1])]


def tables(H):
    i = int(rng.choice([0, 1, 2, 3, 4, 5, 0, 1, 2, 3, 4, 5, -1, 6, 7, -7]))
    H.call('gl_atm', lambda: split(A.gl_atm(i)), many=True, id=i)
    i = int(rng.choice([rng.integers(7, 28), rng.integers(7, 28), 6, 28, 0, -1, 99, 5]))
    H.call('gl_atm_minor', lambda: A.gl_atm_minor(i), id=i)
    i = int(rng.choice([rng.integers(28, 44), rng.integers(28, 44), 27, 44, 0, -1, 99]))
    H.call('gl_atm_trace', lambda: A.gl_atm_trace(i), id=i)


def names(H):
    ids = 'H2O CO2 O3 N2O CO CH4 O2 NO SO2 NO2 NH3 HNO3 OH HF HCL HBR HI CLO OCS H2CO HOCL N2 HCN CH3CL H2O2 C2H2 C2H6 PH3 COF2 SF6 H2S CCL3F ' \
          'CCL2F2 CCLF3 CF4 CHCl2F CHCLF2 C2CL3F3 C2CL2F4 C2CLF5 CCL4 CLONO2 N2O5 HNO4 AIR'.split()
    L = A.atm_profiles()
    H.calls.append(dict(op='names', exc='', out=[], kept=True, list=[[k, v] for k, v in sorted(L.items())], ids=[[i, getattr(A, i, -9)] for i in ids]))
    L[0] = 'changed'; L.pop(3)


def reference(H):
    h = heights()
    q = str(rng.choice(['temperature', 'pressure', 'water_vapour_density']))
    s = str(rng.choice(['summer', 'winter', 'summer', 'winter', 'summer', 'winter', 'spring', 'standard']))
    lat = latitude()
    x = h if rng.random() < .7 or len(h) > 1 else float(h[0])
    H.call('ref', lambda: getattr(H.ex, q)(lat, x, s), [h], q=q, lat=num(lat), season=s, h=flat(h))


def standard(H):
    h = heights()
    ex = H.ex
    k = int(rng.integers(4))
    q, fn = [('standard_temperature', lambda: ex.standard_temperature(h, 288.15)), ('standard_pressure', lambda: ex.standard_pressure(h, 288.15, 1013.25)),
             ('standard_water_vapour_density', lambda: ex.standard_water_vapour_density(h, 2, 7.5)),
             ('standard_water_vapour_pressure', lambda: ex.standard_water_vapour_pressure(h))][k]
    H.call('std', fn, [h], q=q, h=flat(h))


def extrapolate(H, custom):
    z, p, t, rh = profile()
    lat, month = latitude(), int(rng.integers(1, 13))
    q = (p, t, rh)
    H.call('extrapolate', lambda: H.ex.profile_extrapolation(lat, month, z, q), [z, p, t, rh], many=True, lat=num(lat), month=month, z=flat(z), p=flat(p),
           t=flat(t), rh=flat(rh), custom=custom)


def grid(H):
    H.call('grid', lambda: np.array(H.ex.height))


def setgrid(H):
    g = np.unique(np.round(rng.uniform(0, 100, int(rng.integers(2, 30))), 2))
    def f():
        H.ex.height = g
    H.call('height', f, [g], h=flat(g))
    def bad():
        H.ex.height = [1, 2, 3]
    H.call('badgrid', bad)
    H.call('badmode', lambda: ProfileExtrapolation('other'))


for i in range(n):
    H = Hist()
    if kind == 'tables':
        names(H)
        for _ in range(4):
            tables(H)
        names(H)
    if kind == 'reference':
        for _ in range(8):
            reference(H); standard(H)
            if rng.random() < .5:
                extrapolate(H, False)
    if kind == 'extrapolate':
        custom = False
        for _ in range(6):
            extrapolate(H, custom)
            if rng.random() < .3:
                reference(H)
            if rng.random() < .3:
                grid(H)
            if rng.random() < .1:
                setgrid(H); custom = True
            if rng.random() < .1:
                H.ex = ProfileExtrapolation(); custom = False
                H.calls.append(dict(op='newobj', exc='', out=[], kept=True))
    out.put(calls=H.calls, label=kind)
out.close()
