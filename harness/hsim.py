"""Simulations: random scenarios, execution on the real code, records."""
import io, contextlib
import numpy as np
from hlib import *
from pyrtlib.absorption_model import H2OAbsModel, O2AbsModel, N2AbsModel, O3AbsModel, LiqAbsModel
from pyrtlib.tb_spectrum import TbCloudRTE

H2O = ['R98', 'R03', 'R16', 'R17', 'R18', 'R19', 'R19SD', 'R20', 'R20SD', 'R21SD', 'R22SD', 'R23SD', 'R24', 'MWL24']
O2 = ['R98', 'R03', 'R16', 'R17', 'R18', 'R19', 'R19SD', 'R20', 'R20SD', 'R22', 'R23', 'R24']
ALL = ['R98', 'R03', 'R16', 'R17', 'R18', 'R19', 'R19SD', 'R20', 'R20SD', 'R21SD', 'R22', 'R22SD', 'R23', 'R23SD', 'R24', 'MWL24']
O3 = ['R18', 'R22', 'R23']
COMMON = [m for m in H2O if m in O2]

COLS = ['tbtotal', 'tbatm', 'tmr', 'tmrcld', 'tauwet', 'taudry', 'tauliq', 'tauice', 'angle']
ARRS = ['awet', 'adry', 'taulaywet', 'taulaydry', 'taulayliq', 'taulayice']
AMTS = ['srho', 'swet', 'sdry', 'sliq', 'sice']


def profile(rng, nl=None, z0=None, top=None, dry=None, thin=False):
    """A physically valid profile: pressure hydrostatic, temperature with random
    lapse rates, inversions and isothermal parts, humidity with gaps and zeros."""
    whole = nl is None and rng.random() < 0.06      # whole kilometres
    if nl is None:
        u = rng.random()
        nl = int(rng.integers(26, 34) if u < 0.85 else rng.integers(10, 26) if u < 0.95 else rng.integers(60, 110))
    z0 = rng.choice([0.0, 0.0, rng.uniform(0, 4), rng.uniform(-0.4, 4)]) if z0 is None else z0
    top = top or rng.uniform(30, 75)
    s = np.sort(rng.uniform(0, 1, nl - 2)) ** rng.uniform(1.0, 2.5)
    z = np.concatenate([[0.0], np.sort(s) * top, [top]]) + z0
    z = np.unique(np.round(z, rng.integers(2, 5)))
    while len(z) < nl:
        z = np.unique(np.append(z, np.round(z0 + rng.uniform(0, top), 4)))
    z = z.astype(float)
    z[0] = z0
    if whole and nl < 34:
        z = np.arange(nl) * float(rng.integers(1, 4)) + float(rng.integers(0, 3))
    t = np.empty(nl)
    t[0] = rng.uniform(245, 312)
    for i in range(1, nl):
        lapse = rng.choice([-6.5, -9.0, -3.0, 0.0, 2.0, 6.0]) if z[i] < 15 else rng.choice([0.0, 1.0, 2.5, -2.0])
        t[i] = np.clip(t[i - 1] + lapse * (z[i] - z[i - 1]), 185, 318)
    p = np.empty(nl)
    p[0] = 1013.25 * np.exp(-z0 / 7.7) * rng.uniform(0.97, 1.03)
    if thin:
        p[0] *= 0.02
    for i in range(1, nl):
        p[i] = p[i - 1] * np.exp(-(z[i] - z[i - 1]) * 34.163 / (0.5 * (t[i] + t[i - 1])))
    rh = np.clip(rng.uniform(0.02, 1.0) * np.exp(-(z - z0) / rng.uniform(1.5, 20)) * rng.uniform(0.5, 1.3, nl), 0, 1.05)
    rh[z > 16] *= 1e-3
    dry = rng.random() < 0.25 if dry is None else dry
    if dry:
        rh[rng.integers(0, nl, nl // 4)] = 0.0
    if rng.random() < 0.2:
        j = int(rng.integers(1, nl)); rh[j] = rh[j - 1]; t[j] = t[j - 1]
    return z, p, t, rh


def frequencies(rng, n):
    pool = [rng.uniform(1, 60), rng.uniform(10, 300), rng.uniform(50, 70), rng.uniform(100, 900), 22.235, 183.31, 118.75, 60.3,
            31.4, 89.0, 150.0, 57.29 + rng.normal() * 0.2, 183.31 + rng.normal() * 3, 22.2 + rng.normal(), 118.75 + rng.normal() * 0.5]
    idx = rng.choice(len(pool), n, replace=False) if n <= len(pool) else rng.integers(0, len(pool), n)
    return np.array([float(pool[i]) for i in idx])


def scenario(rng, nf=3, na=2, sat=None, ray=None, cloudy=None, o3=None, models=None, **kw):
    z, p, t, rh = profile(rng, **kw)
    nl = len(z)
    s = dict(z=z, p=p, t=t, rh=rh, frq=frequencies(rng, nf), dress=int(rng.integers(0, 6)), how=int(rng.integers(0, 16)))
    if rng.random() < 0.12:
        s['frq'] = rng.integers(10, 400, nf).astype(float)
    ray = bool(rng.random() < 0.4) if ray is None else ray
    lo = 10.0 if ray else 5.0
    s['ang'] = np.array([float(rng.choice([90.0, rng.uniform(lo, 90), rng.uniform(30, 90)])) for _ in range(na)])
    s['sat'] = bool(rng.random() < 0.5) if sat is None else sat
    s['ray'] = ray
    s['iced'] = bool(rng.random() < 0.2)
    s['es'] = np.array([float(x) for x in rng.choice([0.0, 1.0, 0.5, 0.93], nf)]) if rng.random() < 0.3 else rng.uniform(0, 1, nf)
    cloudy = bool(rng.random() < 0.35) if cloudy is None else cloudy
    s['cloudy'] = cloudy
    s['base'], s['top'], s['liq'], s['ice'] = [], [], np.zeros(nl), np.zeros(nl)
    if cloudy:
        nc = int(rng.integers(1, 4))
        lev = np.sort(rng.choice(np.arange(1 if rng.random() < .8 else 0, min(nl, 20)), 2 * nc, replace=False))
        pairs = [(int(lev[2 * i]), int(lev[2 * i + 1])) for i in range(nc)]
        if nc > 1 and rng.random() < 0.2:       # two clouds meeting at a level
            pairs[1] = (pairs[0][1], pairs[1][1])
        if rng.random() < 0.5:
            pairs = pairs[::-1]
        for b, u in pairs:
            s['liq'][b:u + 1] = 10 ** rng.uniform(rng.choice([-6, -3]), 0.5, u - b + 1) * (rng.random() < 0.8)
            s['ice'][b:u + 1] = 10 ** rng.uniform(rng.choice([-6, -3]), 0.3, u - b + 1) * (rng.random() < 0.7)
        if rng.random() < 0.3:
            s['liq'][rng.integers(nl)] = 0.0
        s['liq'][t < 233] = 0.0    # the dielectric models do not reach below
        s['base'] = [float(z[b]) for b, _ in pairs]
        s['top'] = [float(z[u]) for _, u in pairs]
    o3 = bool(rng.random() < 0.35) if o3 is None else o3
    s['o3n'] = (10 ** (17.5 + 1.0 * np.exp(-((z - 22) / 10.0) ** 2)) * rng.uniform(0.3, 2, nl)) if o3 else None
    if models is None:
        models = dict(h2o=str(rng.choice(H2O)), o2=str(rng.choice(O2)), n2=str(rng.choice(ALL)), liq=str(rng.choice(ALL)),
                      o3=str(rng.choice(O3)) if o3 else "")
    s['models'] = models
    return s


def select(models):
    for cls, name in ((H2OAbsModel, 'h2o'), (O2AbsModel, 'o2'), (N2AbsModel, 'n2'), (LiqAbsModel, 'liq'), (O3AbsModel, 'o3')):
        if models.get(name) or name == 'o3':
            cls.model = models[name]


def dressed(s):
    """The same numbers in arrays of another kind: read only, strided, reversed views, integers."""
    d, s = s.get('dress', 0), dict(s)
    for k in ('z', 'p', 't', 'rh', 'frq', 'ang', 'liq', 'ice', 'es', 'o3n'):
        x = s[k]
        if x is None:
            continue
        if d == 1:
            x = x.copy()
            x.setflags(write=False)
        elif d == 2:
            x = np.repeat(x, 2)[::2]
        elif d == 3:
            x = np.ascontiguousarray(x[::-1])[::-1]
        elif d == 4 and k in ('z', 'frq', 'ang') and np.all(x == np.round(x)):
            x = x.astype(int)
        s[k] = x
    return s


def build(s, amu=None):
    """A simulation object with the scenario's options, models selected: given to
    the constructor or set afterwards."""
    select(s['models'])
    how = s.get('how', 0)
    with contextlib.redirect_stdout(io.StringIO()):
        rte = TbCloudRTE(s['z'], s['p'], s['t'], s['rh'], s['frq'], s['ang'], o3n=s['o3n'], amu=None if how & 1 else amu,
                         ray_tracing=s['ray'], from_sat=s['sat'] ^ bool(how & 2), cloudy=s['cloudy'] and not how & 4)
    if amu is not None and how & 1:
        rte.set_amu(amu)
    rte.satellite = s['sat']
    if how % 4 == 1 and not rte.cloudy:     # clouds given to a clear simulation: a warning, nothing else
        rte.init_cloudy(np.array([[float(s['z'][1])], [float(s['z'][min(3, len(s['z']) - 1)])]]), np.ones(len(s['z'])), np.ones(len(s['z'])))
    rte.cloudy = s['cloudy']
    rte.emissivity = float(s['es'][0]) if how & 8 and np.all(s['es'] == s['es'][0]) else s['es']
    rte.ice = s['iced']
    if s['cloudy']:
        rte.init_cloudy(np.array([s['base'], s['top']]), s['ice'], s['liq'])
    return rte


INERT = {'O3_SR', 'w2a', 'Snr', 'X11', 'X16', 'O2_nS', 'wv_nS'}
CONTINUUM = {'con_Cf', 'con_Cs', 'con_Xf', 'con_Xs'}
FACTORS = {'con_Cf_factr', 'con_Cs_factr'}


def parset(rng, models, n, parts=("h2o", "o2", "o3"), turn=None):
    """A parameter set of those models with n coefficients changed (or the turn-th one), and the changes."""
    from pyrtlib.uncertainty import SpectroscopicParameter as SP
    amu, changes = {}, []
    for part, make in (("h2o", SP.water_parameters), ("o2", SP.oxygen_parameters), ("o3", SP.ozono_parameters)):
        if part in parts and models.get(part):
            amu.update(make(models[part]))
    nocont = models.get("h2o") in ('R98', 'R03', 'MWL24')      # no continuum coefficients in the formula
    for f in FACTORS & set(amu):
        amu[f].value = 1.0
    names = [x for x in sorted(amu) if x not in INERT and not (nocont and x in CONTINUUM | FACTORS)]
    if models.get("h2o") not in ('R16', 'R17'):
        names = [x for x in names if x not in FACTORS]
    heads = [x for x in names if not x.startswith("O3_")] or names
    for _ in range(n if turn is None else 1):
        name = str(rng.choice(heads if rng.random() < .8 else names)) if turn is None else names[turn % len(names)]
        p = amu[name]
        v = np.array(p.value, dtype=float)
        size = 10 ** rng.uniform(-4, -0.5)
        if name in ("FL", "O2FL", "O3_FL"):
            size = 1e-7 if name == "O3_FL" else 10 ** rng.uniform(-7, -4)
        if v.ndim == 0:
            p.value = float(v * (1 + rng.choice([-1, 1]) * size))
            if v <= 0 and name == "con_Cs":     # models with a fitted self continuum: a power law instead
                p.value = float(1e-8 * rng.uniform(.5, 2))
            changes.append(dict(name=name, idx=0, value=num(p.value)))
            continue
        js = [int(rng.integers(min(len(v), 49)))] if rng.random() < .7 else range(len(v))
        if name.startswith("O3_") or len(v) > 60:
            js = [int(rng.integers(len(v)))]
        elif name.endswith("_NL"):
            js = [int(rng.integers(34, len(v)))] if rng.random() < .5 else js
        fresh = rng.random() < .5
        for j in js:
            v[j] = v[j] * (1 + rng.choice([-1, 1]) * size) + (size * 1e-3 if v[j] == 0 and name not in ("O2S", "S", "O3_S1") else 0)
            changes.append(dict(name=name, idx=j + 1, value=num(v[j])))
            if not fresh:
                p.value[j] = v[j]
        if fresh:
            p.value = v
    for f in sorted(FACTORS & set(amu)):
        changes.append(dict(name=f, idx=0, value=num(amu[f].value)))
    return amu, changes


def pars_equal(a, b):
    return set(a) == set(b) and all(np.array_equal(a[n].value, b[n].value) and np.array_equal(a[n].uncer, b[n].uncer)
                                    and (a[n].units, a[n].refer, a[n].name) == (b[n].units, b[n].refer, b[n].name) for n in a)


def flat(v, n):
    """A column as n numbers; anything else is recorded as it is."""
    return [num(x) for x in np.ravel(np.asarray(v, dtype=float))]


def result(df, d=None):
    o = {c: flat(df[c].values, 0) for c in COLS}
    for k in ARRS:
        o[k] = arr(d[k]) if d is not None else []
    for k in AMTS:
        o[k] = flat(d[k], 0) if d is not None else []
    return o


EMPTY = {k: [] for k in COLS + ARRS + AMTS}


def inputs(s):
    # arrays of the record are contiguous copies made before the run
    return dict(z=arr(s['z']), p=arr(s['p']), t=arr(s['t']), rh=arr(s['rh']), frq=arr(s['frq']), ang=arr(s['ang']),
                o3n=[] if s['o3n'] is None else arr(s['o3n']), sat=bool(s['sat']), ray=bool(s['ray']), iced=bool(s['iced']), es=arr(s['es']),
                cloudy=bool(s['cloudy']), base=[num(x) for x in s['base']], top=[num(x) for x in s['top']],
                liq=arr(s['liq']), ice=arr(s['ice']), models=dict(s['models']), changes=s.get('changes', []))


def same_inputs(a, b):
    return a == b


def simulate(s, clauses, label, amu=None):
    from copy import deepcopy
    s = dressed(s)
    rec = inputs(s)
    pars = deepcopy(amu)

    def go():
        rte = build(s, amu)
        return rte.execute(only_bt=False)
    r, exc = attempt(go)
    rec.update(kept=same_inputs(rec, inputs(s)) and (amu is None or pars_equal(amu, pars)))
    out = EMPTY
    if not exc:
        if s.get('how', 0) % 4 == 3:        # the table of an execution asked for nothing else
            r = (attempt(lambda: build(s, amu).execute())[0], r[1])
        out, x2 = attempt(lambda: result(*r))
        if x2:
            out = EMPTY
    rec.update(exc=exc, out=out, clauses=clauses, label=label)
    return rec


def reverse(s):
    r = dict(s)
    for k in ('z', 'p', 't', 'rh', 'liq', 'ice'):
        r[k] = s[k][::-1].copy()
    r['o3n'] = None if s['o3n'] is None else s['o3n'][::-1].copy()
    return r
