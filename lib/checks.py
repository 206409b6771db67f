"""One function per property: record behaviours of the real code, let TLC decide them."""
import json, random
import vf


def histories(c, depth, n=None, walk=None):
    """Histories of SessionGen: all of that depth (n sampled), or `walk` random ones."""
    cfg = "INIT GenInit\nNEXT GenNext\nINVARIANT Emit\nINVARIANT Typed\nPROPERTY Lawful\nCHECK_DEADLOCK FALSE\n"
    args = ["-simulate", f"num={walk}", "-depth", str(depth + 1), "-seed", str(c.seed + 17)] if walk else []
    r = vf.tlc("SessionGen", c.scratch, cfg=cfg, env={"DEPTH": str(depth)}, workers=1, cont=False, args=args)
    out = []
    for line in r.out.splitlines():
        if line.startswith('"HIST '):
            h = json.loads(json.loads(line)[5:])
            out.append(h)
    if r.rc != 0 or not out:
        raise vf.MachineryError("SessionGen failed:\n" + r.out[-4000:])
    c.states += r.distinct
    c.transitions += r.generated
    if walk:
        return [h for h in out if len(h["evs"]) > 8]
    c.extra["histories in the model"] = c.extra.get("histories in the model", 0) + len(out)
    if n is not None and n < len(out):
        rnd = random.Random(c.seed)
        out = rnd.sample(out, n)
    return out


def scripted(c, family):
    """The histories of a family of SessionGen's scripts."""
    cfg = "INIT ScriptInit\nNEXT ScriptNext\nINVARIANT ScriptEmit\nINVARIANT Typed\nPROPERTY Lawful\nCHECK_DEADLOCK FALSE\n"
    r = vf.tlc("SessionGen", c.scratch, cfg=cfg, env={"DEPTH": "0", "FAMILY": family}, workers=1, cont=False)
    out = [json.loads(json.loads(line)[5:]) for line in r.out.splitlines() if line.startswith('"HIST ')]
    if r.rc != 0 or not out:
        raise vf.MachineryError("SessionGen failed:\n" + r.out[-4000:])
    c.states += r.distinct
    c.transitions += r.generated
    c.extra[f"{family} histories"] = len(out)
    return out


def sessions(c, groups, pairs, walks, walklen, families=()):
    ones = histories(c, 1)
    H = ones + histories(c, 2, pairs) + histories(c, walklen, walk=walks)
    for f in families:
        H += scripted(c, f)
    keys = {}
    for h in H:
        for key in h["keys"]:
            keys[json.dumps(key, sort_keys=True)] = key
        for e in h["evs"]:
            if e["op"] == "wf":
                key = dict(scenwf=e["scen"], m=e["m"])
                keys[json.dumps(key, sort_keys=True)] = key
    hp, rp, out = f"{c.scratch}/hist", f"{c.scratch}/keys", f"{c.scratch}/session.ndjson"
    with open(hp, "w") as f:
        for h in H:
            f.write(json.dumps(dict(evs=h["evs"])) + "\n")
    with open(rp, "w") as f:
        for key in keys.values():
            f.write(json.dumps(dict(key=key)) + "\n")
    c.record("rec_session.py", out=out, args=[hp, rp])
    env = {"REFS": out + ".refs"}
    for i in range(4):
        env[f"G{i+1}"] = groups[i] if i < len(groups) else "none"
    recs, res = c.validate("SessionTrace", out, env=env)
    c.extra["histories replayed"] = len(H)
    c.extra["events replayed"] = c.extra.get("events replayed", 0) + sum(len(r["evs"]) for r in recs)
    c.extra["distinct executions"] = len(keys)
    c.samples += [[ev["e"] for ev in r["evs"]] for r in recs[:: max(1, len(recs) // 3)]][:3]
    return out


def abs_check(c, species):
    tr = c.record("rec_abs.py", args=[species])
    recs, res = c.validate("AbsTrace", tr)
    c.samples += [dict(species=r["species"], model=r["model"], first=r["points"][:1]) for r in recs[:: max(1, len(recs) // 5)]]
    return dict(points=sum(len(r["points"]) for r in recs), models=sorted({r["species"] + ":" + r["model"] for r in recs}))


def sims(c, family, n_quick, n_thorough, clauses):
    n = n_thorough if c.thorough else n_quick
    tr = c.record("rec_sim.py", out=f"{c.scratch}/{family}.ndjson", args=[family, n, clauses])
    recs, res = c.validate("SimTrace", tr)
    for r in recs[:: max(1, len(recs) // 4)]:
        c.samples.append(dict(label=r["label"], models=r["models"], frq=r["frq"], ang=r["ang"], levels=len(r["z"]), exc=r["exc"],
                              tbtotal=r["out"]["tbtotal"][:3]))
    c.extra.setdefault("clause_groups", []).append(f"{family}: {clauses}")
    return recs


def funs(c, group, n_quick, n_thorough, env=None):
    """Calls of single functions of a group against FunTrace."""
    tr = c.record("rec_fun.py", out=f"{c.scratch}/fun_{group}.ndjson", args=[group, n_thorough if c.thorough else n_quick])
    recs, res = c.validate("FunTrace", tr, env=env)
    by = {}
    for r in recs:
        by[r["fn"]] = by.get(r["fn"], 0) + 1
    c.extra.setdefault("calls", {}).update(by)
    c.samples += recs[:: max(1, len(recs) // 2)][:2]
    return recs


def rels(c, family, n_quick, n_thorough):
    tr = c.record("rec_rel.py", out=f"{c.scratch}/rel_{family}.ndjson", args=[family, n_thorough if c.thorough else n_quick])
    recs, res = c.validate("RelTrace", tr)
    c.extra["executions compared"] = sum(1 + len(r["parts"]) for r in recs)
    c.samples += [dict(label=r["label"], frq=r["frq"], ang=r["ang"], parts=[q["label"] for q in r["parts"]],
                       tbtotal=r["whole"]["tbtotal"]) for r in recs[:3]]


def C01(c):
    sessions(c, ["C01"], *((3000, 1500, 18) if c.thorough else (260, 50, 14)), ["siblings"])


def C02(c):
    sessions(c, ["C02"], *((1500, 500, 18) if c.thorough else (120, 30, 14)), ["siblings"])
    funs(c, "units", 40, 1000, {"ONLY": "kept"})
    funs(c, "air", 40, 1000, {"ONLY": "kept"})
    funs(c, "integrals", 40, 1000, {"ONLY": "kept"})
    funs(c, "rays", 40, 1000, {"ONLY": "kept"})
    sims(c, "params", 80, 2000, "kept")
    funs(c, "bright", 20, 400, {"ONLY": "kept"})
    funs(c, "propagation", 80, 2000, {"ONLY": "kept"})
    sims(c, "orient", 40, 1000, "kept")
    weighting(c, 24, 600, {"ONLY": "kept"})
    parsets(c, 60, 600, 30, 500, {"ONLY": "kept"})
    clim(c, "extrapolate", 40, 1000)
    clim(c, "reference", 40, 1000)


def C03(c):
    sessions(c, ["C03"], *((2500, 1500, 20) if c.thorough else (160, 80, 16)), ["siblings"])


def C04(c):
    out = sessions(c, ["C04", "C01"], *((1500, 800, 18) if c.thorough else (120, 40, 12)), ["selections"])
    recs, _ = c.validate("SimTrace", out + ".sims")
    c.extra["executions compared with the specification of the selected models"] = len(recs)
    sims(c, "models", 64, 1000, "wet,dry,cloud,total")
    abs_check(c, "listed")


def clim(c, kind, n_quick, n_thorough):
    tr = c.record("rec_clim.py", out=f"{c.scratch}/clim_{kind}.ndjson", args=[kind, n_thorough if c.thorough else n_quick])
    recs, res = c.validate("ClimTrace", tr, env={"GROUP": c.prop})
    by = {}
    for r in recs:
        for q in r["calls"]:
            by[q["op"]] = by.get(q["op"], 0) + 1
    c.extra.setdefault("calls", {}).update(by)
    c.samples += [[{k: v for k, v in q.items() if k in ("op", "id", "q", "lat", "season", "month", "exc")} for q in r["calls"][:6]] for r in recs[:3]]


def C18(c):
    clim(c, "tables", 60, 1000)


def design(c, module, init, nxt, invs, props=(), env=None):
    """Model check a part of the specification by itself."""
    cfg = f"INIT {init}\nNEXT {nxt}\n" + "".join(f"INVARIANT {i}\n" for i in invs) + "".join(f"PROPERTY {p}\n" for p in props) + "CHECK_DEADLOCK FALSE\n"
    r = vf.tlc(module, c.scratch, cfg=cfg, cont=False, env=dict(env or {}, VERIF_DIR=vf.VERIF))
    if r.rc != 0:
        raise vf.MachineryError(f"the specification {module} breaks its own properties:\n" + r.out[-4000:])
    c.states += r.distinct
    c.transitions += r.generated
    c.extra.setdefault("design states", {})[module] = r.distinct


def C19(c):
    design(c, "ClimDesign", "DInit", "DNext", ["Positive", "PressureFalls", "Continuous"])
    clim(c, "reference", 150, 4000)


def C20(c):
    clim(c, "extrapolate", 120, 4000)


def gen(c, module, depth, n=None, walk=None, invs=(), props=(), env=None):
    """Histories printed by a generator module: all of that depth (n sampled), or random walks."""
    cfg = "INIT Init\nNEXT Next\nINVARIANT Emit\n" + "".join(f"INVARIANT {i}\n" for i in invs) + "".join(f"PROPERTY {p}\n" for p in props) + "CHECK_DEADLOCK FALSE\n"
    args = ["-simulate", f"num={walk}", "-depth", str(depth + 2), "-seed", str(c.seed + 5)] if walk else []
    r = vf.tlc(module, c.scratch, cfg=cfg, env=dict(env or {}, DEPTH=str(depth)), workers=1, cont=False, args=args)
    out = [json.loads(json.loads(l)[5:]) for l in r.out.splitlines() if l.startswith('"HIST ')]
    if r.rc != 0 or not out:
        raise vf.MachineryError(module + " failed:\n" + r.out[-4000:])
    c.states += r.distinct
    c.transitions += r.generated
    c.extra["histories in the model"] = c.extra.get("histories in the model", 0) + len(out)
    if walk:    # TLC reports every continuation of a walk: keep one of each
        out = list({json.dumps(h[:len(h) // 2]): h for h in random.Random(c.seed).sample(out, len(out))}.values())
    if n is not None and n < len(out):
        out = random.Random(c.seed).sample(out, n)
    return out


def C15(c):
    parsets(c, 400, 4000, 500, 3000)


def parsets(c, short, short_th, walks, walks_th, env=None):
    """Histories of parameter sets."""
    H = gen(c, "ParGen", 3, short_th if c.thorough else short, invs=["Lawful"]) + gen(c, "ParGen", 14, walk=walks_th if c.thorough else walks, invs=["Lawful"])
    hp = f"{c.scratch}/hist_par"
    with open(hp, "w") as f:
        for h in H:
            f.write(json.dumps(h) + "\n")
    tr = c.record("rec_par.py", out=f"{c.scratch}/par.ndjson", args=[hp])
    recs, res = c.validate("ParTrace", tr, env=env)
    c.extra["events replayed"] = c.extra.get("events replayed", 0) + sum(len(r["evs"]) for r in recs)
    c.samples += [[{k: v for k, v in e.items() if k not in ("dump", "diffs", "par")} for e in r["evs"]] for r in recs[-3:]]


def C16(c):
    abs_check(c, "parameters")
    sims(c, "params", 120, 3000, "wet,dry,total")


def C17(c):
    funs(c, "propagation", 400, 20000)


def ingest(c, kind, n_quick, n_thorough):
    tr = c.record("rec_ingest.py", args=[kind, n_thorough if c.thorough else n_quick])
    recs, res = c.validate("IngestTrace", tr)
    by = {}
    for r in recs:
        by[r["label"]] = by.get(r["label"], 0) + 1
    c.extra["requests"] = by
    c.samples += [{k: r[k] for k in ("label", "req", "exc", "urls", "query", "lat", "lon", "lats", "lons") if k in r} for r in recs[:4]]


def C21(c):
    ingest(c, "igra", 400, 6000)


def C22(c):
    ingest(c, "wyoming", 150, 3000)


def C23(c):
    ingest(c, "era5", 200, 3000)


def C24(c):
    kw = dict(invs=["Typed", "Apart"], props=["Lawful"])
    H = gen(c, "HttpGen", 2, 6000 if c.thorough else 500, env={"WIDE": "no"}, **kw)
    H += gen(c, "HttpGen", 12, walk=1500 if c.thorough else 150, env={"WIDE": "yes"}, **kw)
    hp = f"{c.scratch}/hist"
    with open(hp, "w") as f:
        for h in H:
            f.write(json.dumps(h) + "\n")
    tr = c.record("rec_http.py", args=[hp])
    recs, res = c.validate("HttpTrace", tr)
    c.extra["events replayed"] = c.extra.get("events replayed", 0) + sum(len(r["evs"]) for r in recs)
    c.samples += [[{k: v for k, v in e.items() if k in ("op", "ep", "path", "query", "reply", "exc")} for e in r["evs"]] for r in recs[-2:]]


def C26(c):
    weighting(c, 240, 4000)


def weighting(c, n_quick, n_thorough, env=None):
    """Histories of weighting-function objects."""
    H = gen(c, "WfGen", 12, walk=n_thorough if c.thorough else n_quick, invs=["Typed"])
    hp = f"{c.scratch}/hist_wf"
    with open(hp, "w") as f:
        for h in H:
            f.write(json.dumps(h) + "\n")
    tr = c.record("rec_wf.py", out=f"{c.scratch}/wf.ndjson", args=[hp])
    recs, res = c.validate("WfTrace", tr, env=env)
    c.extra["events replayed"] = c.extra.get("events replayed", 0) + sum(len(r["evs"]) for r in recs)
    c.extra["weighting functions computed"] = sum(len(e["wgt"]) for r in recs for e in r["evs"])
    c.extra["figures"] = sum(bool(e["lines"]) for r in recs for e in r["evs"])
    c.samples += [[{k: v for k, v in e.items() if k in ("op", "v", "normalized", "groups", "exc")} for e in r["evs"]] for r in recs[-2:]]


def C27(c):
    kw = dict(invs=["Tables"], props=["Lawful"])
    H = gen(c, "InstGen", 2, 4000 if c.thorough else 300, env={"WIDE": "no"}, **kw)
    H += gen(c, "InstGen", 10, walk=3000 if c.thorough else 200, env={"WIDE": "yes"}, **kw)
    hp = f"{c.scratch}/hist"
    with open(hp, "w") as f:
        for h in H:
            f.write(json.dumps(h) + "\n")
    tr = c.record("rec_inst.py", args=[hp])
    recs, res = c.validate("InstTrace", tr)
    c.extra["events replayed"] = c.extra.get("events replayed", 0) + sum(len(r["evs"]) for r in recs)
    c.samples += [[{k: v for k, v in e.items() if k in ("op", "kind", "name", "spelling", "how", "exc")} for e in r["evs"]] for r in recs[-2:]]


def C08(c):
    rels(c, "batch", 100, 2000)
    sims(c, "batch", 60, 1500, "angle,transfer,opacity,total")


def C10(c):
    rels(c, "orient", 100, 2000)
    sims(c, "orient", 96, 2000, "total,opacity,amounts,cloud,transfer")


CONVERSIONS = ["MixingRatio", "Density", "Humidity", "Temperature", "Height", "Brightness", "Increasing", "Ends", "Saturation", "Dew", "Thick"]


def C25(c):
    design(c, "UnitsDesign", "DInit", "DNext", CONVERSIONS, env={"LEVELS": "100" if c.thorough else "20"})
    funs(c, "units", 150, 6000)
    funs(c, "masses", 2, 40)


TRANSFER = ["Bounded", "Isothermal", "Emission", "Transparent", "Total", "Radiating", "Discretised", "Turned"]
PATHS = ["Between", "Unbent", "Overhead", "Means", "Additive"]


def C05(c):
    design(c, "TransferDesign", "DInit", "DNext", TRANSFER, env={"LEVELS": "4" if c.thorough else "3"})
    funs(c, "bright", 200, 5000)
    sims(c, "transfer", 180, 3000, "transfer")


def C06(c):
    design(c, "PathDesign", "DInit", "DNext", PATHS, env={"LEVELS": "4" if c.thorough else "3"})
    funs(c, "rays", 400, 20000)
    sims(c, "geometry", 160, 3000, "opacity,amounts,angle")


def C07(c):
    design(c, "PathDesign", "DInit", "DNext", PATHS, env={"LEVELS": "3"})
    funs(c, "air", 200, 5000)
    funs(c, "integrals", 600, 20000)
    sims(c, "amounts", 180, 3000, "opacity,amounts")


def C09(c):
    absorption(c, "Liquid", "Ice")
    sims(c, "cloud", 168, 3000, "cloud,transfer")
    abs_check(c, "liquid,ice")


def C14(c):
    design(c, "TransferDesign", "DInit", "DNext", TRANSFER, env={"LEVELS": "3"})
    sims(c, "bounds", 200, 4000, "bounds,order")


def absorption(c, *invs):
    design(c, "AbsDesign", "DInit", "DNext", invs, env={"LEVELS": "90" if c.thorough else "16"})


def C11(c):
    absorption(c, "Water", "Family")
    sims(c, "water", 28, 700, "wet")
    return abs_check(c, "water")


def C12(c):
    absorption(c, "Oxygen")
    sims(c, "oxygen", 24, 600, "dry")
    return abs_check(c, "oxygen")


def C13(c):
    absorption(c, "Nitrogen", "Ozone")
    sims(c, "dryair", 32, 800, "wet,dry")
    return abs_check(c, "nitrogen,ozone")


def C28(c):
    design(c, "CovDesign", "DInit", "DNext", ["Shape", "Positive", "Correlated", "Pairs", "Common", "Order"])
    tr = c.record("rec_cov.py", args=[400 if c.thorough else 20])
    recs, _ = c.validate("CovTrace", tr)
    c.extra["elements compared"] = sum(len(r["m"]) ** 2 for r in recs)
    c.samples += [dict(matrix=r["name"], variance=r["combos"][:1]) for r in recs if r["combos"]]


def C29(c):
    kw = dict(props=["Lawful"])
    H = gen(c, "AdviceGen", 3, 3000 if c.thorough else 360, env={"WIDE": "no"}, **kw)
    H += gen(c, "AdviceGen", 9, walk=1500 if c.thorough else 120, env={"WIDE": "yes"}, **kw)
    hp = f"{c.scratch}/hist"
    with open(hp, "w") as f:
        for h in H:
            f.write(json.dumps(h) + "\n")
    tr = c.record("rec_advice.py", args=[hp])
    recs, res = c.validate("AdviceTrace", tr, env={"REFS": tr + ".profs"})
    evs = [e for r in recs for e in r["evs"]]
    c.extra["events replayed"] = len(evs)
    c.extra["events with a warning"] = sum(e["warned"] for e in evs)
    c.samples += [[{k: v for k, v in e.items() if k not in ("exc", "least", "front")} for e in r["evs"]] for r in recs[-2:]]


TRACE = "TLA+ specification; TLC validates recorded executions of the real code against it"
TECH = {}
NOTES = {}
TRUST = ("Every recorded execution is compared with the value the TLA+ specification gives (doubles, relative 1e-8 unless stated); "
         "scenarios are sampled from VERIF_SEED, not exhausted. Trusted: TLC, the scalar arithmetic override java/vnum, the recorder.")
NOT_APPLICABLE = {}

CHECKS = {k: v for k, v in globals().items() if k[0] == "C" and k[1:].isdigit()}


def run():
    return vf.main(CHECKS)
