"""Record calls of single functions: rec_fun.py OUT group n"""
import sys, warnings
from hlib import *
from pyrtlib import utils as U
from pyrtlib.rt_equation import RTEquation as R

out = Out(sys.argv[1])
group, n = sys.argv[2], int(sys.argv[3])
rng = np.random.default_rng([SEED, sum(map(ord, group))])


def flat(x):
    return [num(v) for v in np.ravel(np.asarray(x, dtype=float))]


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))


def rec(fn, args, call, opt=(), elementwise=True, text="", label=""):
    """call(*args) -> result or tuple of results."""
    before = [np.array(x, copy=True) for x in args]
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        with np.errstate(all='ignore'):
            r, exc = attempt(lambda: call(*args))
    res = [] if r is None else list(r) if isinstance(r, tuple) else [r]
    shape = True
    if elementwise and not exc:
        want = np.broadcast(*[np.asarray(x) for x in args]).shape
        shape = all(np.shape(x) == want for x in res)
    out.put(fn=fn, a=[flat(x) for x in before], opt=list(opt), out=[flat(x) for x in res], exc=exc, text=text,
            warned=any(issubclass(x.category, UserWarning) for x in w),
            kept=all(same(x, y) for x, y in zip(before, args)), shape=bool(shape), label=label or fn)


def vary(x):
    """The same values as scalar, vector, column, matrix, Fortran or strided array."""
    k = int(rng.integers(0, 7))
    if k == 6:      # whole numbers, as a file or a user may give them
        return [v.astype(int) if np.all(v == np.round(v)) else v for v in x]
    if k == 0:
        return [float(v[0]) for v in x]
    if k == 1:
        return [v.reshape(2, -1).copy() for v in x]
    if k == 2:
        return [np.asfortranarray(v.reshape(-1, 2)) for v in x]
    if k == 3:
        return [np.repeat(v, 2)[::2] for v in x]
    if k == 4 and len(x) > 1:    # one argument fixed
        i = int(rng.integers(len(x)))
        return [float(v[0]) if j == i else v for j, v in enumerate(x)]
    return x


def units():
    m = 12
    t = rng.choice([rng.uniform(180, 330, m), np.round(rng.uniform(180, 330, m)), rng.uniform(240, 300, m)])
    p = np.exp(rng.uniform(np.log(rng.choice([0.5, 0.5, 1e-5])), np.log(1080), m))
    if rng.random() < .3:
        p = np.maximum(np.round(p), 1.0)
    es = 6.1 * 10 ** (7.5 * (t - 273.15) / (t - 35.9))
    e = np.minimum(rng.uniform(0, 1.1, m) * es, 0.6 * p)
    e[rng.integers(0, m)] = 0.0
    w = 622 * e / (p - e)
    rho = e / (t * 461.52e-5)
    F = lambda name, args, **k: rec(name, vary(args), getattr(U, name), **k)
    F('eswat_goffgratch', [t]); F('esice_goffgratch', [t]); F('satvap', [t]); F('satmix', [p, t])
    F('mr2rh', [p, t, w]); F('mr2rho', [w, t, p]); F('mr2e', [p, w]); F('e2mr', [p, e])
    F('rho2rh', [rho, t, p]); F('rho2mr', [rho, t, p])
    tc = float(rng.choice([273.15, 263.16, 250.0, t[3], 400.0, 100.0]))
    rec('satvap', [t], lambda a: U.satvap(a, tc), opt=[num(tc)])
    rec('satmix', [p, t], lambda a, b: U.satmix(a, b, tc), opt=[num(tc)])
    rec('mr2rh', [p, t, w], lambda a, b, c: U.mr2rh(a, b, c, tc), opt=[num(tc)])
    hvk = rng.uniform(0.05, 50, m)
    F('tk2b_mod', [hvk, rng.choice([t, np.full(m, 2.728), rng.uniform(2, 400, m)])])
    F('virtual_temperature', [t, w * 1e-3])
    ps = np.sort(p)[::-1].copy()
    if np.all(ps == np.round(ps)) and rng.random() < .7:
        ps = ps.astype(int)
    rec('atmospheric_tickness', [ps, t], U.atmospheric_tickness)
    rec('atmospheric_tickness', [ps, t, w * 1e-3], U.atmospheric_tickness)
    tcel = rng.uniform(-80, 50, m); td = tcel - rng.uniform(0, 30, m) * (rng.random(m) < 0.9)
    if rng.random() < .3:
        tcel, td = np.round(tcel), np.round(td)
    F('dewpoint2rh', [td, tcel], opt=["arm", ""])
    rec('dewpoint2rh', vary([td, tcel]), lambda a, b: U.dewpoint2rh(a, b, method='x'), opt=["x", ""])
    rec('dewpoint2rh', vary([td, tcel]), lambda a, b: U.dewpoint2rh(a, b, True, 'x'), opt=["x", "ice"])
    rec('dewpoint2rh', vary([td, tcel]), lambda a, b: U.dewpoint2rh(a, b, ice=True), opt=["arm", "ice"])
    q = e / p * 0.622
    F('kgkg_to_kgm3', [q, p, t])
    x = 10 ** rng.uniform(-6, 4.7, m); x[2] = 0.0
    F('ppmv_to_moleculesm3', [x, p * 100, t])
    F('to_kelvin', [tcel]); F('to_celsius', [t])
    ph = rng.uniform(230, 1080, m); h = rng.uniform(-400, 11000, m)
    F('pressure_to_height', [ph]); F('height_to_pressure', [h])
    # there and back again
    pos = np.maximum(e, 1e-9)
    rec('rt:e-mr', [pos, p], lambda a, b: U.mr2e(b, U.e2mr(b, a)), elementwise=False)
    rec('rt:mr-e', [w, p], lambda a, b: U.e2mr(b, U.mr2e(b, a)), elementwise=False)
    rec('rt:rho-mr', [rho, t, p], lambda a, b, c: U.mr2rho(U.rho2mr(a, b, c), b, c), elementwise=False)
    rec('rt:mr-rho', [w, t, p], lambda a, b, c: U.rho2mr(U.mr2rho(a, b, c), b, c), elementwise=False)
    rec('rt:planck', [t, hvk], lambda a, b: np.array([R.bright(y, U.tk2b_mod(y, v)) for v, y in zip(a, b)]), elementwise=False)
    rec('rt:celsius', [tcel], lambda a: U.to_celsius(U.to_kelvin(a)) + 0.0, elementwise=False)
    rec('rt:height', [h], lambda a: U.pressure_to_height(U.height_to_pressure(a)), elementwise=False)
    rec('rt:pressure', [ph], lambda a: U.height_to_pressure(U.pressure_to_height(a)), elementwise=False)


def masses():
    for g in list(range(0, 44)) + [99, -1, 44, 98, 100]:
        rec('gas_mass', [np.zeros(1)], lambda a: U.gas_mass(g), opt=[g], elementwise=False, label=f"gas {g}")
        x = 10 ** rng.uniform(-6, 5, 6); x[1] = 0
        rec('ppmv2gkg', vary([x]), lambda a: U.ppmv2gkg(a, g), opt=[g], label=f"gas {g}")
    for c in ['avogadro', 'boltzmann', 'EarthRadius', 'gravity', 'light', 'Np2dB', 'planck', 'Rdry', 'Rwatvap', 'Tcosmicbkg', 'R', 'light2', 'K']:
        r, x = attempt(lambda: U.constants(c))
        rec('constants', [np.zeros(1)], lambda a: U.constants(c)[0], opt=[c], elementwise=False, text=r[1] if not x else "")


def air():
    m = 14
    t = rng.choice([rng.uniform(180, 330, m), np.full(m, 263.16), np.round(rng.uniform(240, 300, m))])
    rh = rng.uniform(0, 1.2, m); rh[rng.integers(m)] = 0.0
    p = np.exp(rng.uniform(np.log(0.5), np.log(1080), m))
    F = lambda name, args, f, **k: rec(name, args, f, **k)
    F('vapor', vary([t, rh])[:2], R.vapor, opt=["water"])
    F('vapor', [t, rh], lambda a, b: R.vapor(a, b, True), opt=["ice"])
    e = np.minimum(rh * 6.1 * 10 ** (7.5 * (t - 273.15) / (t - 35.9)), p)
    F('refractivity', [p, t, e], R.refractivity)


def integrals():
    m = int(rng.integers(2, 12))
    x = 10 ** rng.uniform(-14, 3, m)
    k = int(rng.integers(0, 8))
    if k == 1:
        x[rng.integers(0, m, 2)] = 0.0
    if k == 2:
        x[m // 2:] = x[m // 2 - 1]
    if k == 3:
        x[1] = x[0] + rng.choice([-1, 1]) * 10 ** rng.uniform(-12, -6)
    if k == 4:
        x = 10 ** rng.uniform(-12, -7, m)
    if k == 5:
        x = x[0] * np.exp(-np.arange(m) * rng.uniform(0, 2))
    if k == 6:
        x[rng.integers(m)] *= -1
    x = np.abs(x) if k != 6 else x
    ds = rng.uniform(0, 3, m); ds[0] = 0.0
    if k == 7:
        ds[rng.integers(m)] = 0.0
    mean = bool(rng.random() < 0.5)
    fac = float(rng.choice([1.0, 0.1, 10.0]))
    rec('exponential_integration', [x, ds, fac], lambda a, b, c: R.exponential_integration(mean, a, b, 1, m, c),
        opt=["mean" if mean else "zero"], elementwise=False)
    den = 10 ** rng.uniform(-3, 1, m); den[rng.integers(m)] = 0
    nc = int(rng.integers(0, 3))
    base = [int(rng.integers(0, m)) for _ in range(nc)]
    top = [int(rng.integers(b, m)) for b in base]
    rec('cloud_integrated_density', [den, ds], lambda a, b: R.cloud_integrated_density(a, b, np.array(base, float), np.array(top, float)),
        opt=[[b + 1 for b in base], [u + 1 for u in top]], elementwise=False)


def rays():
    from hsim import profile
    z, p, t, rh = profile(rng, dry=False)
    z0 = float(z[0]); z = z - z0
    e, _ = R.vapor(t, rh)
    _, _, nr = R.refractivity(p, t, e)
    k = int(rng.integers(0, 9))
    ang = float(rng.choice([rng.uniform(3, 90), rng.uniform(3, 20), rng.uniform(88, 92), 89.0, 91.0, 88.999, 91.001, -90.0, rng.uniform(95, 170)]))
    if k == 1:
        nr[rng.integers(1, len(nr))] = 1.0
    if k == 2:
        nr[rng.integers(len(nr))] = 1 - 10 ** rng.uniform(-9, -5)
    if k == 3:      # ducting
        ang = float(rng.uniform(0.05, 1.0)); nr[0:2] += rng.uniform(1e-4, 6e-4)
    if k == 4:
        ang = float(rng.uniform(0.5, 6))
    if k == 5:
        i = int(rng.integers(1, len(nr))); nr[i] = nr[i - 1]
    if k == 6:
        z0 = float(rng.uniform(0, 6))
    if k == 8:      # no refraction: a straight line
        nr[:] = 1.0
    rec('ray_tracing', [z, nr, np.array([ang]), np.array([z0])], lambda a, b, c, d: R.ray_tracing(a, b, float(c[0]), float(d[0])),
        elementwise=False, label=f"ray/{k}")


def bright():
    h = float(rng.uniform(0.02, 50)); b = float(rng.choice([0.0, 10 ** rng.uniform(-30, 4), 10 ** rng.uniform(-3, 3)]))
    rec('bright', [h, b], R.bright)


def propagation():
    from pyrtlib.uncertainty import AbsModUncertainty as A
    m = 6
    for f in ['aA', 'aA+bB', 'aA-bB', 'A*B', 'A/B', 'A^a', 'A+B', 'a*A', '']:
        x = rng.choice([-1, 1], m) * 10 ** rng.uniform(-8, 5, m)
        y = rng.choice([-1, 1], m) * 10 ** rng.uniform(-8, 5, m)
        x[rng.integers(m)] = 0.0
        if f not in ('A/B',):
            y[rng.integers(m)] = 0.0
        sx, sy = np.abs(x) * rng.uniform(0, 1, m) + rng.choice([0, 1e-3], m), np.abs(y) * rng.uniform(0, 1, m) + rng.choice([0, 1e-3], m)
        a, b = [float(rng.choice([-1, 1]) * rng.choice([1.0, 10 ** rng.uniform(-2, 2)])) for _ in range(2)]
        if f == 'A^a':
            a = float(rng.choice([1, 2, 3, 0.5, 1.5, 0.76, 4]))
            if a != int(a):
                x = np.abs(x) + 1e-9
            elif rng.random() < .3:
                a = -a; x = np.where(x == 0, 1.0, x)
        args = [x, y, sx, sy]
        cov = 0.0
        if rng.random() < .6 and len(f) > 2:      # possible: |covariance| below the product of the standard deviations
            k = int(rng.integers(m))
            args = [float(v[k]) for v in args]
            cov = float(rng.uniform(-.98, .98) * args[2] * args[3])
        else:
            if f in ('aA', 'A^a'):     # the second operand plays no part
                k = int(rng.integers(m))
                args = [args[0], 1.0, args[2], 1.0] if rng.random() < .7 else [float(args[0][k]), 1.0, float(args[2][k]), 1.0]
            else:
                args = vary(args)
        kw = dict(a=a, b=b, sAB=cov)
        if rng.random() < .2:
            kw = {}; a, b, cov = 1.0, 1.0, 0.0
        el = f not in ('aA', 'A^a')
        rec('uncertainty_propagation', args, lambda p, q, r, s: A.uncertainty_propagation(f, p, q, r, s, **kw), opt=[f, num(a), num(b), num(cov)], elementwise=el,
            label=f"{f}")


G = dict(propagation=[propagation], units=[units], masses=[masses], air=[air], integrals=[integrals], rays=[rays], bright=[bright])
for i in range(n):
    for f in G[group]:
        f()
out.close()
