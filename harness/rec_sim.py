"""Record simulations of a family: rec_sim.py OUT family n clauses"""
import sys
from hsim import *

out = Out(sys.argv[1])
family, n, clauses = sys.argv[2], int(sys.argv[3]), sys.argv[4].split(",")
rng = np.random.default_rng([SEED, sum(map(ord, family)), n])


jobs = []


def put(s, label):
    jobs.append((s, label))


def run(job):
    r = [simulate(job[0], clauses, job[1], job[0].get('amu'))]
    if 'after' in job[0]:       # the same simulation without the parameter set
        r.append(simulate({k: v for k, v in job[0].items() if k != 'changes'}, clauses, job[1] + "/after"))
    return r


for i in range(n):
    if family == 'transfer':
        kind = i % 8
        kw = {}
        if kind >= 6:     # few thick layers over a surface inversion, each opaque but not their sum
            kw = dict(nl=int(rng.integers(2, 7)), top=float(rng.uniform(4, 20)), z0=0.0, dry=False)
        if kind == 1:     # transparent
            kw = dict(thin=True, dry=True)
        s = scenario(rng, nf=4, na=3, sat=bool(i % 2) if kind < 6 else bool(rng.random() < .7), cloudy=(kind == 4) or (None if kind < 6 else False), **kw)
        if kind == 2:     # opaque: high frequency, humid, low angle
            s['frq'] = np.sort(rng.uniform(300, 990, 4)); s['rh'] = np.clip(s['rh'] * 3 + 0.3 * np.exp(-s['z'] / 8), 0, 1)
            s['ang'] = np.array([90.0, rng.uniform(20, 60), rng.uniform(6, 20)]); s['ray'] = False
        if kind == 3:     # near resonances
            s['frq'] = np.array([556.936, 183.31, 118.75, 60.3]) + rng.normal(0, 0.02, 4)
        if kind == 1:
            s['frq'] = np.array([0.5, 1.4, 6.8, 10.7])
        if kind == 4:
            s['liq'] *= 10 ** rng.uniform(0, 3)
        if kind == 5:     # isothermal
            s['t'] = np.full(len(s['z']), float(rng.uniform(200, 300)))
        if kind >= 6:
            n = len(s['z'])
            s['frq'] = np.array([60.3, rng.uniform(50, 70), 118.75 + rng.normal(0, .3), 183.31 + rng.normal(0, 2)])
            s['ang'] = np.array([90.0, rng.uniform(40, 90), rng.uniform(20, 60)])
            s['p'] = 1013 * np.exp(-s['z'] / 7.5)
            s['t'] = s['t'] + np.where(np.arange(n) == 1, rng.uniform(4, 15), 0)
            s['rh'] = rng.uniform(.1, .9, n) * np.exp(-s['z'] / 8)
        put(s, f"transfer/{kind}")
    elif family == 'geometry':
        s = scenario(rng, nf=2, na=4, ray=bool(i % 2), cloudy=False)
        s['ang'] = np.array([90.0, rng.uniform(88.5, 91.5), rng.uniform(10, 89), rng.uniform(4, 12) if not s['ray'] else rng.uniform(8, 20)])
        if i % 5 == 2 and not s['ray']:       # close to the horizon
            s['ang'] = np.array([rng.uniform(.05, 1), rng.uniform(1, 3), rng.uniform(3, 5), 179.2])
        if i % 5 == 4:
            s['ang'] = np.array([rng.uniform(95, 170), rng.uniform(91, 95), 45.0, 30.0]) if not s['ray'] else np.array([88.99, 89.0, 91.0, 60.0])
        put(s, f"geometry/{'ray' if s['ray'] else 'plane'}")
    elif family == 'amounts':
        s = scenario(rng, nf=2, na=2, cloudy=(i % 4 == 0))
        k = i % 6
        if k == 1:
            s['rh'] = np.zeros(len(s['z']))
        if k == 2:
            s['rh'][3:9] = s['rh'][3]; s['t'][3:9] = s['t'][3]
        if k == 3:
            s['rh'] = s['rh'] * rng.uniform(1, 3)
        if k == 4:
            s['rh'][::2] = 0.0
        if k == 5:
            s['rh'][5::3] *= 1e-9
        put(s, f"amounts/{k}")
    elif family == 'cloud':
        s = scenario(rng, nf=3, na=2, cloudy=True)
        if i % 7 == 3:
            s['liq'][:] = 0.0
        if i % 7 == 5:
            s['ice'][:] = 0.0
        if i % 7 == 6:
            s['liq'][:] = 0.0; s['ice'][:] = 0.0
        if i % 5 == 2:
            s = reverse(s)
        put(s, "cloud")
    elif family == 'models':
        s = scenario(rng, nf=3, na=1)
        m = ALL[i % len(ALL)]
        s['models'] = dict(h2o=m if m in H2O else 'R20SD', o2=m if m in O2 else 'R20', n2=m, liq=m, o3=s['models']['o3'])
        put(s, f"models/{m}")
    elif family in ('water', 'oxygen', 'dryair'):
        # absorption profiles of whole executions, near the lines of a species and anywhere
        s = scenario(rng, nf=4, na=1, ray=False, cloudy=False, o3=True if family == 'dryair' else None, nl=int(rng.integers(8, 20)),
                     top=float(rng.uniform(30, 95)))
        part, known, near = dict(water=('h2o', H2O, [22.235, 183.31, 325.15, 556.936, 380.2]),
                                 oxygen=('o2', O2, [60.3, 118.75, 53.0669, 424.763, 58.4466]),
                                 dryair=('n2', ALL, [110.836, 142.175, 101.74, 235.71, 301.81]))[family]
        s['models'][part] = known[i % len(known)]
        s['frq'] = np.array([rng.choice(near) + rng.normal(0, .2) * 10 ** rng.uniform(-4, 0), rng.uniform(.5, 300), rng.uniform(300, 999), 10 ** rng.uniform(-.5, 2.5)])
        if i % 3 == 1:
            s['rh'] = np.clip(s['rh'] * rng.uniform(1, 3), 0, 1)
        if i % 5 == 3:
            s['rh'][::2] = 0.0
        if i % 5 == 4:
            s['rh'][::3] *= 10 ** rng.uniform(-12, -5)
        if family == 'dryair' and i % 7 == 2:
            s['o3n'] = None
        if family == 'dryair' and i % 7 == 4:
            s['models']['o3'] = ""
        put(s, f"{family}/{known[i % len(known)]}")
    elif family == 'bounds':
        s = scenario(rng, nf=4, na=3, sat=bool((i // 4) % 2))
        if i % 4 == 1:
            s['t'] = np.full(len(s['z']), float(rng.uniform(200, 310))); s['frq'] = rng.uniform(500, 990, 4); s['es'] = rng.uniform(0, 1, 4)
            s['rh'] = np.clip(s['rh'] + 0.5 * np.exp(-s['z'] / 3), 0, 1)
        if i % 4 == 3:      # nothing but the cosmic background or the surface
            s['p'] = s['p'] * 1e-4; s['rh'] = np.zeros(len(s['z'])); s['frq'] = rng.uniform(0.5, 10, 4); s['o3n'] = None
        if i % 3 == 0:
            s['frq'][[1, 3]] = s['frq'][[0, 2]]
        put(s, "bounds")
    elif family == 'params':
        # a parameter set of the model, unchanged, with one coefficient changed, with many
        s = scenario(rng, nf=3, na=1, nl=14, cloudy=None, o3=bool(i % 4 == 1))
        m = dict(h2o=H2O[i % len(H2O)], o2=O2[i % len(O2)])
        s['models'].update(m)
        parts = ("h2o", "o2", "o3")
        s['amu'], s['changes'] = parset(rng, s['models'], [0, 1, 3, 40][i % 4], parts)
        k = i % 5
        if k == 1:
            s['frq'] = np.array([22.235, 183.31, 325.15]) + rng.normal(0, .3, 3)
        if k == 2:
            s['frq'] = np.array([118.75, 60.3, 53.0669]) + rng.normal(0, .1, 3)
        if i % 4 in (1, 3) and i % 3 == 0:
            s['after'] = True
        put(s, f"params/{i % 4}")
    elif family == 'batch':
        s = scenario(rng, nf=5, na=3) if i % 6 else scenario(rng, nf=int(rng.integers(9, 48)), na=int(rng.integers(4, 12)), nl=10)
        put(s, "batch")
    elif family == 'orient':
        s = scenario(rng, nf=2, na=2, cloudy=bool(i % 2), o3=bool(i % 3 == 0))
        k = i % 8
        m = len(s['z'])
        pick = lambda: int(rng.choice([1, m - 1, rng.integers(1, m)]))
        if k >= 2 and k < 5:
            s = reverse(s)
        if k == 5:
            j = pick(); s['z'][j] = s['z'][j - 1]
        if k == 6:
            j = pick(); s['z'][[j, j - 1]] = s['z'][[j - 1, j]]
        if k == 7:
            s = reverse(s); j = pick(); s['z'][j] = s['z'][j - 1] + rng.choice([0.0, 0.1])
        if k >= 5:
            s['cloudy'] = False; s['base'], s['top'] = [], []
        put(s, f"orient/{k}")
for recs in parallel(run, jobs):
    for rec in recs:
        out.put(**rec)
out.close()
