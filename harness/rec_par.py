"""Replay histories of parameter sets: rec_par.py OUT histories"""
import json, sys
from hsim import *
from pyrtlib.uncertainty import SpectroscopicParameter as SP, AbsModUncertainty as AMU

MODELS = dict(water=H2O, oxygen=O2, ozone=O3)
BUILD = dict(water=SP.water_parameters, oxygen=SP.oxygen_parameters, ozone=SP.ozono_parameters)
WRONG = ['R99', 'R21SD', 'R24x', 'r98', 'R22']


def seq(x):
    return flat(x, 0)


def dump(s):
    return {n: dict(value=seq(p.value), uncer=seq(p.uncer), vs=np.ndim(p.value) == 0, us=np.ndim(p.uncer) == 0,
                    meta=f"{p.units}|{p.refer}|{p.name}") for n, p in s.items()}


def diffs(k, old, new):
    out = []
    for n in sorted(set(old) | set(new)):
        if n not in old or n not in new:
            out.append(dict(k=k, name=n, field="presence"))
            continue
        a, b = old[n], new[n]
        for f, keys in (("value", ("value", "vs")), ("uncer", ("uncer", "us")), ("meta", ("meta",))):
            if any(a[q] != b[q] for q in keys):
                out.append(dict(k=k, name=n, field=f))
    return out


def replay(job):
    i, hist = job
    rng = np.random.default_rng([SEED, 77, i])
    live, kinds, last, evs, cur = [], [], [], [], 0
    if hasattr(SP, "SP"):
        del SP.SP

    def parts(kind):
        if kind == "both":
            m = str(rng.choice(COMMON))
            ps = [["water", m], ["oxygen", m]]
            return ps + ([["ozone", str(rng.choice(O3))]] if rng.random() < 0.15 else [])
        return [[kind, str(rng.choice(MODELS[kind]))]]

    def handed(r, kind):
        live.append(r); kinds.append(kind); d = dump(r); last.append(d)
        return d

    for h in hist:
        e = dict(op=h["op"], exc="")
        new = None
        if h["op"] in ("build", "wrong"):
            ps = parts(h["kind"]) if h["op"] == "build" else [[h["kind"], str(rng.choice(WRONG))]]
            e.update(op="build", parts=ps, label=" ".join("-".join(x) for x in ps))

            def go():
                s = {}
                for kd, m in ps:
                    s.update(BUILD[kd](m))
                return s
            new, e["exc"] = attempt(go)
            nk = ps
        elif h["op"] == "edit":
            if h["k"] > len(live):
                continue
            s = live[h["k"] - 1]
            name = str(rng.choice(sorted(s)))
            p = s[name]
            if h["field"] == "replace":
                par = SP(float(np.ravel(p.value)[0] * 1.01), 0.001, 'unitless', 'the caller') if rng.random() < .5 else \
                    SP(np.array(p.value, dtype=float) * 1.0, np.array(p.value, dtype=float) * 0.03, 'u', 'the caller', 'changed')
                s[name] = par
                e.update(op="replace", k=h["k"], name=name, par=dump({name: par})[name])
            else:
                x = getattr(p, h["field"])
                if np.ndim(x) == 0:
                    v = float(p.value if np.ndim(p.value) == 0 else p.value[0]) * rng.uniform(0.01, 0.2) if h["field"] == "uncer" else float(x) * rng.uniform(0.9, 1.1)
                    setattr(p, h["field"], v); j = 0
                else:
                    j = int(rng.integers(len(x)))
                    v = float(np.ravel(p.value)[j]) * (rng.uniform(0.01, 0.2) if h["field"] == "uncer" else rng.uniform(0.9, 1.1))
                    x[j] = v
                e.update(op="edit", k=h["k"], name=name, field=h["field"], i=j + 1, v=num(v))
        elif h["op"] == "spread":
            if h["k"] > len(live):
                continue
            v = float(rng.uniform(0.01, 0.1))
            for p in live[h["k"] - 1].values():
                if np.ndim(p.uncer) == 0:
                    p.uncer = v * (abs(float(np.ravel(p.value)[0])) + 1e-3)
                else:
                    p.uncer[:] = v * (np.abs(np.ravel(p.value)) + 1e-3)
            e.update(k=h["k"], v=num(v))
        elif h["op"] == "set":
            if h["k"] > len(live):
                continue
            SP.set_parameters(live[h["k"] - 1]); cur = h["k"]
            e.update(k=cur)
        elif h["op"] == "perturb":
            s = live[cur - 1] if cur else dict(x=0)
            names = sorted(s)
            what = [] if h["what"] == "all" else ['nothing'] if h["what"] == "unknown" else \
                [str(x) for x in rng.choice(names, min(len(names), 1 if h["what"] == "one" else 3), replace=False)]
            if cur and h["what"] in ("one", "some"):
                # where something is uncertain; half of the time among the scalar uncertainties of arrays
                unc = [n for n in names if np.any(np.asarray(s[n].uncer) != 0)]
                odd = [n for n in unc if np.ndim(s[n].uncer) == 0 and np.ndim(s[n].value)]
                if odd and rng.random() < .4:
                    unc = odd
                if unc and rng.random() < .8:
                    what = [str(x) for x in rng.choice(unc, min(len(unc), len(what)), replace=False)]
            idx = None
            if h["index"] == "first":
                idx = 0
            elif h["index"] != "every":
                sizes = [np.size(s[n].value) for n in (what or names) if cur and n in s and np.ndim(s[n].value)]
                idx = int(rng.integers(0, min(sizes))) if sizes else 0
                if h["index"] == "beyond":
                    idx = max(sizes, default=3) + 1
            mode = {"bad": "maximum"}.get(h["mode"], h["mode"])
            e.update(what=what, mode=mode, index=-1 if idx is None else idx)
            if what == [] and idx is None and rng.random() < .3:
                new, e["exc"] = attempt(lambda: AMU.parameters_perturbation(mode=mode))
            else:
                new, e["exc"] = attempt(lambda: AMU.parameters_perturbation(what, mode, idx))
            nk = kinds[cur - 1] if cur else []
        elif h["op"] == "run":
            if h["k"] > len(live):
                continue
            ps = dict(kinds[h["k"] - 1])
            if "water" not in ps or "oxygen" not in ps:
                continue
            sc = scenario(rng, nf=1, na=1, nl=8, cloudy=False, o3="ozone" in ps,
                          sat=h["view"] == "space", ray=h["view"] == "rays",
                          models=dict(h2o=ps["water"], o2=ps["oxygen"], n2="R98", liq="R98", o3=ps.get("ozone", "")))
            e.update(k=h["k"])
            # a replaced scalar in place of a line array cannot be run
            if any(np.ndim(p.value) == 0 and ref for p, ref in ((live[h["k"] - 1][n], live[h["k"] - 1][n].refer == 'the caller') for n in live[h["k"] - 1])):
                continue
            _, e["exc"] = attempt(lambda: build(sc, live[h["k"] - 1]).execute(only_bt=False))
        d = []
        for j in range(len(live)):
            now = dump(live[j])
            d += diffs(j + 1, last[j], now)
            last[j] = now
        e["diffs"] = d
        e["dump"] = {}
        if new is not None:
            e["dump"] = handed(new, nk)
        evs.append(e)
    return dict(evs=evs, label="parameter sets")


out = Out(sys.argv[1])
H = [json.loads(l) for l in open(sys.argv[2])]
for rec in parallel(replay, list(enumerate(H)), 8):
    out.put(**rec)
out.close()
