"""Replay histories of simulations and record what they announce: rec_advice.py OUT HISTORIES"""
import sys
from hsim import *

rng = np.random.default_rng([SEED, 29])
KINDS = ("sound", "short", "shallow", "both", "down", "downshallow", "negative", "ray", "duct", "deep")
MODELS = dict(h2o="R20SD", o2="R20", n2="R20", liq="R20SD", o3="")


def physical(nl, top, z0=0.0):
    z = np.sort(rng.uniform(.2, top - .5, nl - 2))
    z = z0 + np.concatenate([[0.0], z + np.arange(nl - 2) * 1e-3, [top]])
    t = np.clip(rng.uniform(270, 300) - 6.5 * (z - z0), 215, None) + rng.uniform(-1, 1, nl)
    p = np.empty(nl)
    p[0] = 1013.0 * np.exp(-z0 / 7.7)
    for i in range(1, nl):
        p[i] = p[i - 1] * np.exp(-(z[i] - z[i - 1]) * 34.163 / (0.5 * (t[i] + t[i - 1])))
    rh = rng.uniform(.2, .8, nl) * np.exp(-(z - z0) / 4)
    return z, p, t, rh


def case(kind, var):
    nl = {1: 25, 2: 26, 3: 33}[var]
    low = kind in ("short", "both")
    if low:
        nl = {1: 24, 2: 12, 3: 20}[var]
    z, p, t, rh = physical(nl, float(rng.uniform(40, 60)), float(rng.choice([0.0, .4])) if kind not in ("ray", "duct") else 0.0)
    f, ang, ray = 31.4, 90.0, False
    if kind in ("shallow", "both", "downshallow"):
        p = p + {1: 10.0 - p[-1], 2: 1e-6 + 10.0 - p[-1], 3: 180.0}[var]       # the top just at 10 hPa, above it, far from it
        if var == 1:
            p[-1] = 10.0
    elif var == 1:
        p = p + 9.9999 - p[-1]
    if kind in ("down", "downshallow"):
        z, p, t, rh = (x[::-1].copy() for x in (z, p, t, rh))
    if kind == "negative":
        rh[{1: 0, 2: 7, 3: nl - 1}[var]] = -.02
    if kind == "ray":
        ray, ang = True, {1: 15.0, 2: 30.0, 3: 70.0}[var]
    if kind == "duct":          # dry air close above hot wet air, seen close to the horizon
        ray, ang = True, {1: .3, 2: .6, 3: .2}[var]
        b = {1: 1, 2: 2, 3: 4}[var]         # the level that is dry
        z[1:b + 1] = .02 * np.arange(1, b + 1)
        t[:b] = 312.0; t[b] = 311.0; rh[:b] = 1.0; rh[b] = .05; rh[b + 1:] = .01
        p[1:b + 1] = p[0] * (1 - .002 * np.arange(1, b + 1))
        z[b + 1:] = np.maximum(z[b + 1:], .12 + np.arange(nl - b - 1) * .01)
    if kind == "deep":          # a strong line between the observer and the cloud
        f, rh = 556.936, np.clip(rh + .5 * np.exp(-z / 6), 0, 1)
    s = dict(kind=kind, var=var, z=z, p=p, t=t, rh=rh, frq=np.array([f]), ang=np.array([ang]), o3n=None, sat=bool(var == 2), ray=ray, iced=False, es=np.ones(1), cloudy=False,
             base=[], top=[], liq=np.zeros(nl), ice=np.zeros(nl), models=MODELS)
    return s


CASES = {(k, v): case(k, v) for k in KINDS for v in (1, 2, 3)}


def clouds(s):
    """One cloud well inside the profile, with ice only: warm enough or not, any model takes it."""
    z = np.sort(s['z'])
    b = 8 if s['kind'] == "deep" else 2
    ice = np.zeros(len(z)); liq = np.zeros(len(z))
    down = s['z'][0] > s['z'][-1]
    ice[b:b + 2] = .1
    liq[b:b + 2] = np.where(s['t'][::-1][b:b + 2] > 240 if down else s['t'][b:b + 2] > 240, .1, 0)
    cut = slice(None, None, -1 if down else 1)
    return np.array([[z[b]], [z[b + 1]]]), ice[cut].copy(), liq[cut].copy(), b


def replay(evs):
    objs, res = [], []
    select(MODELS)
    for e in evs:
        r, least, front = None, 0.0, 0.0
        with warnings.catch_warnings(record=True) as got:
            warnings.simplefilter("always")
            if e["op"] == "new":
                s = CASES[e["kind"], e["var"]]
                def new():
                    with contextlib.redirect_stdout(io.StringIO()):
                        return TbCloudRTE(s['z'], s['p'], s['t'], s['rh'], s['frq'], s['ang'], ray_tracing=s['ray'], from_sat=s['sat'], cloudy=e["cloudy"])
                r, exc = attempt(new)
                objs.append((r, s))
            elif e["op"] == "liquid":
                LiqAbsModel.model, exc = e["m"], ""
            else:
                o, s = objs[e["obj"] - 1]
                if e["op"] == "cloudy":
                    o.cloudy, exc = e["v"], ""
                elif e["op"] == "clouds":
                    h, ice, liq, b = clouds(s)
                    _, exc = attempt(lambda: o.init_cloudy(h, ice, liq))
                else:
                    r, exc = attempt(lambda: o.execute(only_bt=False))
        said = [str(w.message) for w in got if issubclass(w.category, UserWarning)]
        if e["op"] == "execute" and exc == "":
            d = r[1]
            least = min(float(np.nanmin(d[x])) for x in ("awet", "adry"))
            tau = sum(np.asarray(d[x])[0, 0] for x in ("taulaywet", "taulaydry", "taulayliq", "taulayice"))
            b = clouds(s)[3]
            # levels count from the lowest; layer i lies below level i
            front = float(tau[b + 1:].sum() if s['sat'] else tau[:b + 1].sum())
        res.append(dict(e, exc=exc, warned=bool(said), text=" | ".join(sorted(set(said)))[:200], least=num(least), front=num(front)))
    return res


if __name__ == "__main__":
    out = Out(sys.argv[1])
    for evs in parallel(replay, [json.loads(line) for line in open(sys.argv[2])]):
        out.put(evs=evs, label="announcements")
    out.close()
    ro = Out(sys.argv[1] + ".profs")
    for s in CASES.values():
        ro.put(**dict(inputs(s), kind=s['kind'], var=s['var']))
    ro.close()
