"""Replay histories of weighting functions: rec_wf.py OUT HISTORIES"""
import matplotlib
matplotlib.use("Agg")
import re, sys
from hsim import *
import matplotlib.pyplot as plt
from pyrtlib.weighting_functions import WeightingFunctions

ES = [0.6, 0.0]


def curves(w, label=re.compile(r"^\s*(\d+\.?\d*)")):
    fig = plt.gcf()
    lines = []
    best = max(fig.axes, key=lambda a: len(a.get_lines()))
    other = [a for a in fig.axes if a is not best]
    for l in best.get_lines():
        m = label.match(str(l.get_label()))
        lines.append(dict(x=arr(np.asarray(l.get_xdata(), float)), y=arr(np.asarray(l.get_ydata(), float)), frq=num(m.group(1)) if m else "nan",
                          peak=num(k.group(1)) if (k := re.search(r"GHz\s+(-?\d+\.?\d*)\s*km$", str(l.get_label()))) else "nan"))
    e = dict(lines=lines, xgot=[num(v) for v in best.get_xlim()], inkm="km" in best.get_ylabel(), inhpa=all("hPa" in a.get_ylabel() for a in other), hlim=[num(v) for v in best.get_ylim()], plim=[num(v) for v in other[0].get_ylim()] if other else [])
    return fig, best, e


def replay(job):
    i, h = job
    rng = np.random.default_rng([SEED, 26, i])
    z, p, t, rh = profile(rng, nl=int(rng.integers(14, 26)), z0=float(rng.choice([0.0, 0.0, 0.0, rng.uniform(0, 3)])), top=float(rng.choice([20.0, 32.0, rng.uniform(12, 60)])))
    dz = float(rng.choice([1.0, 2.0, 3.0, 1.5, 0.9, z[-1] / 20]))
    if z[-1] / dz > 45:
        dz = z[-1] / float(rng.integers(15, 40))
    if i % 6 == 5:
        z, p, t, rh = (np.ascontiguousarray(v[::-1]) for v in (z, p, t, rh))
    lists = [frequencies(rng, n) for n in (1, 3, 5, 6, 10)]
    if i % 3:
        c = float(rng.choice([57.29, 118.75, 183.31]))
        lists[2] = np.array([c, c - .2, c + .2, c - 1.5, c + 1.5])
    lists[1][2] = 89.0
    angles = [90.0, 53.0, float(rng.uniform(20, 85)), 90.0]
    names = [[f"ch{a}{b}" for b in range(a)] for a in range(1, 11)]
    mine = [z, p, t, rh] + lists
    rec = dict(z=arr(z), p=arr(p), t=arr(t), rh=arr(rh), dz=num(dz), lists=[arr(x) for x in lists], angles=[num(a) for a in angles], names=names, evs=[], exc="", label="weighting functions",
               grid=[], tgrid=[], pgrid=[], rhgrid=[])
    before = [x.copy() for x in mine]
    made = []       # (result, copy)

    def intact():
        return bool(all(np.array_equal(a, b, equal_nan=True) for a, b in zip(mine, before)) and all(np.array_equal(a, b, equal_nan=True) for a, b in made))

    def ylim(k):
        return None if k == 0 else (0, float(max(g for g in w.zinterp if g <= z.max() * .7))) if k == 1 else (0.0, float(z.max() * .55))

    w, rec["exc"] = attempt(lambda: WeightingFunctions(z, p, t, rh, dz))
    if rec["exc"]:
        return rec
    rec.update(grid=arr(w.zinterp), tgrid=arr(w.tinterp), pgrid=arr(w.pinterp), rhgrid=arr(w.rhinterp))
    frq = 2
    for e in h:
        e = dict(e)

        def act():
            op = e["op"]
            if op == "frq":
                w.frequencies = lists[e["v"] - 1]
                w.bandpass = None
            elif op == "sat":
                w.satellite = e["v"]
            elif op == "ang":
                w.angle = angles[e["v"] - 1]
            elif op == "model":
                w.model = e["v"]
            elif op == "es":
                w.emissivity = ES[e["v"] - 1]
            elif op == "band":
                w.bandpass = np.array(e["v"]) if e["v"] else None
            elif op == "labels":
                n = len(w.bandpass) if w.bandpass is not None else len(w.frequencies)
                w.legend_labels = True if e["v"] else None
            elif op == "refused":
                if e["v"] == "sat":
                    w.satellite = "yes"
                else:
                    w.frequencies = [22.2, 31.4]
            elif op == "generate":
                r = w.generate_wf()
                made.append((r, np.array(r)))
                e["wgt"] = arr(r)
            elif op == "other":
                if e["v"] == "wf":
                    o = WeightingFunctions(z, p, t, rh, dz * 3)
                    o.frequencies, o.model, o.satellite = lists[3], "R98", False
                    o.generate_wf()
                else:
                    s = scenario(rng, nf=2, na=1, nl=8, cloudy=True, o3=True)
                    build(s, parset(rng, s["models"], 3)[0] if e["v"] == "amu" else None).execute()
            elif op == "plot":
                n = len(w.bandpass) if w.bandpass is not None else len(w.frequencies)
                keep = w.legend_labels
                if keep:
                    w.legend_labels = names[n - 1]
                try:
                    w.plot_wf(made[-1][0], "title", ylim=ylim(e["ylim"]), xlim=(0, 0.7) if e["xlim"] else None, legend=e["legend"], normalized=e["normalized"], figsize=(3, 3), dpi=40)
                finally:
                    w.legend_labels = keep
                fig, ax, q = curves(w)
                e.update(q)
                leg = [a.get_legend() for a in fig.axes if a.get_legend()]
                e["texts"] = [x.get_text() for x in leg[0].get_texts()] if leg else []
            elif op == "grouped":
                w.plot_wf_grouped(made[-1][0], "title", ylim=ylim(e["ylim"]), grouped_frequencies=list(e["groups"]), grouped_labels=names[len(e["groups"]) - 1], figsize=(3, 3), dpi=40)
                fig, ax, q = curves(w)
                e.update(q)
                e["texts"] = [x.get_text() for x in ax.texts]
        _, exc = attempt(act)
        plt.close("all")
        e.setdefault("wgt", []); e.setdefault("lines", []); e.setdefault("texts", [])
        if e["op"] in ("plot", "grouped"):
            e["xlim"] = [num(v) for v in (0, 0.7)] if e.get("xlim") else []
            e["lim"] = [num(v) for v in ylim(e["ylim"]) or []]
        e.update(exc=exc, kept=intact())
        rec["evs"].append(e)
    return rec


out = Out(sys.argv[1])
for rec in parallel(replay, list(enumerate(json.loads(l) for l in open(sys.argv[2]))), 1):
    out.put(**rec)
out.close()
