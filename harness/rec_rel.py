"""Record executions that must agree: rec_rel.py OUT family n"""
import sys
from hsim import *

out = Out(sys.argv[1])
family, n = sys.argv[2], int(sys.argv[3])
rng = np.random.default_rng([SEED, sum(map(ord, family)), n])


def outcome(s, full=True, es_float=None):
    def go():
        rte = build(s)
        if es_float is not None:
            rte.emissivity = es_float
        return rte.execute(only_bt=not full)
    r, exc = attempt(go)
    if exc:
        return EMPTY, exc
    return (result(*r) if full else result(r)), ""


def part(s, label, js, as_, tol="1e-11", full=True, es_float=None):
    o, exc = outcome(s, full, es_float)
    return dict(label=label, js=[j + 1 for j in js], **{"as": [a + 1 for a in as_]}, out=o, exc=exc, tol=tol)


def sub(s, js, as_):
    q = dict(s)
    q['frq'], q['es'], q['ang'] = s['frq'][js], s['es'][js], s['ang'][as_]
    return q


def batch(i, seed):
    rng = np.random.default_rng(seed)
    nf, na, kw = (5, 3, {}) if i % 8 != 7 else (int(rng.integers(9, 48)), int(rng.integers(4, 12)), dict(nl=10))
    s = scenario(rng, nf=nf, na=na, **kw)
    if i % 3 == 0:
        s['frq'][3] = s['frq'][1]          # same frequency, another emissivity
    if i % 4 == 0:
        s['ang'][2] = s['ang'][0]
    w, exc = outcome(s)
    parts = [part(sub(s, [j], [a]), f"single channel {j} angle {a}", [j], [a])
             for j, a in [(int(rng.integers(nf)), int(rng.integers(na))) for _ in range(3)]]
    jp, ap = [int(x) for x in rng.permutation(nf)], [int(x) for x in rng.permutation(na)]
    parts.append(part(sub(s, jp, ap), "permuted", jp, ap))
    jr, ar = [int(x) for x in rng.integers(0, nf, 4)], [int(x) for x in rng.integers(0, na, 3)]
    parts.append(part(sub(s, jr, ar), "repeated", jr, ar))
    parts.append(part(s, "only brightness temperatures", list(range(nf)), list(range(na)), full=False))
    if np.all(s['es'] == s['es'][0]):
        parts.append(part(s, "scalar emissivity", list(range(nf)), list(range(na)), es_float=float(s['es'][0])))
    return dict(frq=arr(s['frq']), ang=arr(s['ang']), whole=w, exc=exc, parts=parts, label=f"batch/{'sat' if s['sat'] else 'ground'}")


def orient(i, seed):
    rng = np.random.default_rng(seed)
    s = scenario(rng, nf=2, na=2, cloudy=bool(i % 2), o3=bool(i % 3 == 0))
    J, A = [0, 1], [0, 1]
    w, exc = outcome(s)
    r = reverse(s)
    parts = [part(r, "top down", J, A)]
    v = dict(s)                            # as reversed views, as a user would slice a frame
    for k in ('z', 'p', 't', 'rh', 'liq', 'ice'):
        v[k] = np.ascontiguousarray(s[k][::-1])[::-1]
    parts.append(part(v, "views", J, A))
    if not s['ray']:
        h = float(rng.choice([rng.uniform(0, 5), -s['z'][0], 100.0, -0.4]))
        for base, lab in ((s, "shifted"), (r, "shifted top down")):
            q = dict(base)
            q['z'] = base['z'] + h
            # cloud heights are levels of the shifted profile
            q['base'] = [float(q['z'][np.nonzero(base['z'] == b)[0][0]]) for b in base['base']]
            q['top'] = [float(q['z'][np.nonzero(base['z'] == b)[0][0]]) for b in base['top']]
            # tmrcld cancels: its last digits depend on the rounding of the heights
            parts.append(part(q, lab, J, A, tol="1e-8"))
    return dict(frq=arr(s['frq']), ang=arr(s['ang']), whole=w, exc=exc, parts=parts, label="orient")


F = dict(batch=batch, orient=orient)
seeds = [[SEED, sum(map(ord, family)), i] for i in range(n)]


def run(i):
    return F[family](i, seeds[i])


for rec in parallel(run, list(range(n))):
    out.put(**rec)
out.close()
