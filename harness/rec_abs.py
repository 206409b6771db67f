"""Record absorption coefficients of every species and model: rec_abs.py OUT species[,species]"""
import sys
import numpy as np
from hlib import *
from pyrtlib.absorption_model import H2OAbsModel, O2AbsModel, N2AbsModel, O3AbsModel, LiqAbsModel
from pyrtlib.rt_equation import RTEquation

out = Out(sys.argv[1])
species = sys.argv[2].split(",")
H2O = ['R98', 'R03', 'R16', 'R17', 'R18', 'R19', 'R19SD', 'R20', 'R20SD', 'R21SD', 'R22SD', 'R23SD', 'R24', 'MWL24']
O2 = ['R98', 'R03', 'R16', 'R17', 'R18', 'R19', 'R19SD', 'R20', 'R20SD', 'R22', 'R23', 'R24']
O3 = ['R18', 'R22', 'R23']
ALL = ['R98', 'R03', 'R16', 'R17', 'R18', 'R19', 'R19SD', 'R20', 'R20SD', 'R21SD', 'R22', 'R22SD', 'R23', 'R23SD', 'R24', 'MWL24']
BAD = ['R99', 'R21', 'r98', 'R19sd', 'R245', 'R20SDX', 'X']
NPT = 600 if THOROUGH else 112


def cond(rng):
    """Dry pressure, vapour pressure (hPa), temperature: surface to mesosphere, dry to saturated, and beyond."""
    r = rng.random()
    t = rng.uniform(180, 330) if rng.random() < .93 else rng.uniform(120, 345)
    if r < 0.5:
        pd = rng.uniform(100, 1060); e = 10 ** rng.uniform(-3, 1.7)
    elif r < 0.8:
        pd = 10 ** rng.uniform(-2, 2); e = pd * 10 ** rng.uniform(-6, -1)
    elif r < 0.9:
        pd = rng.uniform(500, 1060); e = rng.uniform(20, 120)
    else:
        pd = 10 ** rng.uniform(-5, 3.3); e = 0.0 if rng.random() < 0.5 else 10 ** rng.uniform(-8, 0)
    return float(t), float(pd), float(e)


def freqs(rng, lines, n):
    fs = []
    for _ in range(n):
        r = rng.random()
        if r < 0.35:
            fs.append(rng.uniform(1, 300))
        elif r < 0.5:
            fs.append(rng.uniform(300, 1000))
        elif r < 0.55:
            fs.append(10 ** rng.uniform(-1.5, 1))
        elif r < 0.6:
            fs.append(10 ** rng.uniform(3, 3.5))
        elif r < 0.64:
            fs.append(lines[rng.integers(len(lines))])
            continue
        else:
            f0 = lines[rng.integers(len(lines))]
            fs.append(f0 + rng.choice([-1, 1]) * 10 ** rng.uniform(-5, 1.2))
    return [float(abs(f)) + (0 if f in lines else 1e-3) for f in fs]


def put(sp, model, pts, exc, label, changes=()):
    out.put(species=sp, model=model, changes=list(changes), points=pts, exc=exc, label=label)


LINES = dict(water=[22.23508, 183.310087, 321.22563, 325.152888, 380.197353, 439.15, 443.02, 448.0, 470.89, 474.69, 488.49, 556.936, 620.7,
                    752.033, 916.17, 987.9],
             oxygen=[118.7503, 56.2648, 62.4863, 58.4466, 60.3061, 59.591, 59.1642, 60.4348, 53.0669, 50.9877, 66.8368, 368.4982, 424.7632,
                     487.2493, 715.3929, 773.8395, 834.1458, 52.0214, 51.5034, 67.3696, 68.4310],
             ozone=[110.836, 142.175, 165.784, 184.378, 195.43, 235.71, 249.79, 273.05, 301.81, 317.19, 43.65, 101.74, 10.225])


def centres(sp, m):
    """The frequencies of the model's own lines."""
    from pyrtlib.uncertainty import SpectroscopicParameter as SP
    make, name = dict(water=(SP.water_parameters, "FL"), oxygen=(SP.oxygen_parameters, "O2FL"), ozone=(SP.ozono_parameters, "O3_FL"))[sp]
    r, exc = attempt(lambda: [float(x) for x in np.ravel(make(m)[name].value)])
    return [] if exc else [x for x in r if 1 < x < 1100]


def perturbed(sp, m, n, rng, turn=None):
    """Absorption with n coefficients of the model changed (or the turn-th one of them)."""
    from hsim import parset
    part = dict(water="h2o", oxygen="o2", ozone="o3")[sp]
    cls = dict(water=H2OAbsModel, oxygen=O2AbsModel, ozone=O3AbsModel)[sp]
    amu, changes = parset(rng, {part: m}, n, turn=turn)
    cls.model = m
    cls.set_ll()
    lines = list(LINES[sp])
    for c in changes:       # near the lines whose coefficients changed
        if c["idx"]:
            fl = [float(x) for x in np.ravel(dict(water=lambda: amu["FL"], oxygen=lambda: amu["O2FL"], ozone=lambda: amu["O3_FL"])[sp]().value)]
            if 1 < fl[c["idx"] - 1] < 1000:
                lines += [fl[c["idx"] - 1]] * 6
    pts, exc = [], ''
    for f in freqs(rng, lines, 10 if turn is None else 3):
        t, pd, e = cond(rng)
        if sp == 'ozone':
            t = float(rng.uniform(180, 310)); p = float(10 ** rng.uniform(-3, 3)); den = float(10 ** rng.uniform(13, 19))
            r, exc = attempt(lambda: O3AbsModel().o3_absorption(np.float64(t), np.float64(p), np.float64(f), np.float64(den), amu))
            q = None if exc else dict(t=num(t), p=num(p), f=num(f), n=num(den), out=num(r))
        elif sp == 'water':
            f = min(f, 1150.0)
            r, exc = attempt(lambda: H2OAbsModel().h2o_absorption(np.float64(pd / 10), np.float64(300.0 / t), np.float64(e / 10), np.float64(f), amu))
            q = None if exc else dict(t=num(t), pd=num(pd), e=num(e), f=num(f), line=num(np.ravel(r[0])[0]), cont=num(np.ravel(r[1])[0]))
        else:
            r, exc = attempt(lambda: O2AbsModel().o2_absorption(np.float64(pd / 10), np.float64(300.0 / t), np.float64(e / 10), np.float64(f), amu))
            q = None if exc else dict(t=num(t), pd=num(pd), e=num(e), f=num(f), line=num(np.ravel(r[0])[0]), cont=num(np.ravel(r[1])[0]))
        if exc:
            break
        pts.append(q)
    put(sp, m, pts, exc, f"{sp}:{m}:{n} changed", changes)


for sp in species:
    rng = np.random.default_rng([SEED, sum(map(ord, sp))])
    if sp == 'parameters':
        for s_, ms in (("water", H2O), ("oxygen", O2), ("ozone", O3)):
            for m in ms:
                for i in range((200 if THOROUGH else 12) // (2 if s_ == "ozone" else 1)):
                    perturbed(s_, m, [1, 2, 1, 8, 0, 60][i % 6], rng)
                for turn in range(24):      # every parameter in its turn
                    perturbed(s_, m, 1, rng, turn)
    elif sp == 'listed':
        from pyrtlib.absorption_model import AbsModel
        for cls in (AbsModel, H2OAbsModel, O2AbsModel, O3AbsModel, N2AbsModel, LiqAbsModel):
            lists, exc = attempt(lambda: {str(k): [str(x) for x in v] for k, v in cls.implemented_models().items()})
            put(sp, '', [] if exc else [dict(sp=k, models=v) for k, v in sorted(lists.items())], exc, "implemented models")
            if not exc:         # the caller may do with the lists what it likes
                lists["Oxygen"].clear()
    elif sp == 'water':
        for m in H2O:
            H2OAbsModel.model = m
            _, exc = attempt(H2OAbsModel.set_ll)
            pts = []
            if not exc:
                # conditions first, so that the records do not depend on library internals
                fs = freqs(rng, LINES['water'] + centres(sp, m), NPT)
                H2OAbsModel.model = m
                H2OAbsModel.set_ll()
                for f in fs:
                    if m in ('R23SD', 'R24'):       # the fitted continuum ends at 1199 GHz (documented: 1000)
                        f = min(f, 1150.0)
                    t, pd, e = cond(rng)
                    (r, x) = attempt(lambda: H2OAbsModel().h2o_absorption(np.float64(pd / 10), np.float64(300.0 / t), np.float64(e / 10), np.float64(f)))
                    if x:
                        exc = x; break
                    pts.append(dict(t=num(t), pd=num(pd), e=num(e), f=num(f), line=num(np.ravel(r[0])[0]), cont=num(np.ravel(r[1])[0])))
            for c in range(0, max(len(pts), 1), 14):
                put(sp, m, pts[c:c + 14], exc, f"water:{m}")
        for m in BAD + ['R22', 'R23']:
            H2OAbsModel.model = 'R20'
            H2OAbsModel.set_ll()
            H2OAbsModel.model = m
            _, exc = attempt(H2OAbsModel.set_ll)
            put(sp, m, [], exc, f"water:bad:{m}")
    elif sp == 'oxygen':
        for m in O2:
            O2AbsModel.model = m
            _, exc = attempt(O2AbsModel.set_ll)
            pts = []
            if not exc:
                fs = freqs(rng, LINES['oxygen'] + centres(sp, m), NPT)
                O2AbsModel.model = m
                O2AbsModel.set_ll()
                for f in fs:
                    t, pd, e = cond(rng)
                    r, x = attempt(lambda: O2AbsModel().o2_absorption(np.float64(pd / 10), np.float64(300.0 / t), np.float64(e / 10), np.float64(f)))
                    if x:
                        exc = x; break
                    pts.append(dict(t=num(t), pd=num(pd), e=num(e), f=num(f), line=num(np.ravel(r[0])[0]), cont=num(np.ravel(r[1])[0])))
            for c in range(0, max(len(pts), 1), 14):
                put(sp, m, pts[c:c + 14], exc, f"oxygen:{m}")
        for m in BAD + ['R21SD', 'R22SD', 'MWL24', 'R23SD']:
            O2AbsModel.model = m
            _, exc = attempt(O2AbsModel.set_ll)
            put(sp, m, [], exc, f"oxygen:bad:{m}")
    elif sp == 'ozone':
        for m in O3:
            O3AbsModel.model = m
            _, exc = attempt(O3AbsModel.set_ll)
            pts = []
            if not exc:
                fs = freqs(rng, LINES['ozone'] + centres(sp, m), NPT)
                O3AbsModel.model = m
                O3AbsModel.set_ll()
                for f in fs:
                    t = rng.uniform(180, 310) if rng.random() < .9 else rng.uniform(120, 345); p = 10 ** rng.uniform(-5, 3.05); n = 0.0 if rng.random() < 0.05 else 10 ** rng.uniform(13, 19)
                    r, x = attempt(lambda: O3AbsModel().o3_absorption(np.float64(t), np.float64(p), np.float64(f), np.float64(n)))
                    if x:
                        exc = x; break
                    pts.append(dict(t=num(t), p=num(p), f=num(f), n=num(n), out=num(r)))
            for c in range(0, max(len(pts), 1), 14):
                put(sp, m, pts[c:c + 14], exc, f"ozone:{m}")
        for m in BAD + ['R20', 'R24', 'MWL24']:
            O3AbsModel.model = m
            _, exc = attempt(O3AbsModel.set_ll)
            put(sp, m, [], exc, f"ozone:bad:{m}")
    elif sp == 'nitrogen':
        for m in ALL + BAD:
            N2AbsModel.model = m
            pts, exc = [], ''
            for f in [float(x) for x in 10 ** rng.uniform(-1, 3.5, NPT)]:
                t, pd, _ = cond(rng)
                r, x = attempt(lambda: N2AbsModel.n2_absorption(np.float64(t), np.float64(pd), np.float64(f)))
                if x:
                    exc = x; break
                pts.append(dict(t=num(t), pd=num(pd), f=num(f), out=num(r)))
            put(sp, m, pts, exc, f"nitrogen:{m}")
    elif sp == 'liquid':
        for m in ALL + BAD:
            LiqAbsModel.model = m
            pts, exc = [], ''
            for f in [float(x) for x in 10 ** rng.uniform(0, 3, NPT)]:
                t = rng.uniform(233, 320); den = 10 ** rng.uniform(-5, 1) if rng.random() < .9 else float(rng.choice([0.0, -1e-3, 1e-12, 50.0]))
                r, x = attempt(lambda: LiqAbsModel.liquid_water_absorption(np.float64(den), np.float64(f), np.float64(t)))
                if x:
                    exc = x; break
                pts.append(dict(t=num(t), den=num(den), f=num(f), out=num(r)))
            put(sp, m, pts, exc, f"liquid:{m}")
    elif sp == 'ice':
        pts, exc = [], ''
        LiqAbsModel.model = 'R20'
        for f in [float(x) for x in 10 ** rng.uniform(0, 3, NPT)]:
            den = rng.choice([0.0, 1.0]) * 10 ** rng.uniform(-5, 1, 6)
            liq = rng.choice([0.0, 1.0]) * 10 ** rng.uniform(-5, 1, 6)
            t = rng.uniform(200, 300, 6)
            r, x = attempt(lambda: RTEquation.cloudy_absorption(t, liq, den, f))
            if x:
                exc = x; break
            for i in range(6):
                pts.append(dict(t=num(t[i]), den=num(den[i]), f=num(f), out=num(r[1][i])))
        put(sp, 'any', pts, exc, "ice")
out.close()
