"""Record requests to the upper-air archives and the reanalysis reader: rec_ingest.py OUT kind n"""
import io, sys, zipfile, datetime, urllib.parse, os, tempfile
from hlib import *
from net import NET

out = Out(sys.argv[1])
kind, n = sys.argv[2], int(sys.argv[3])
rng = np.random.default_rng([SEED, sum(map(ord, kind))])


def pick(*xs):
    return xs[int(rng.integers(len(xs)))]


def column(v):
    return [num(x) for x in np.asarray(v, dtype=float)]


def day(y, m, d, k):
    t = datetime.date(y, m, d) + datetime.timedelta(days=int(k))
    return [t.year, t.month, t.day]


# ------------------------------------------------------------------ IGRA
def some(lo, hi, miss=0.15, codes=(-9999, -8888)):
    """An archive integer, sometimes missing or looking like a missing code in another field."""
    r = rng.random()
    if r < miss:
        return int(codes[int(rng.integers(len(codes)))])
    if r < miss + 0.08:
        return int(pick(lo, hi, 0 if lo <= 0 <= hi else lo))
    v = int(rng.integers(lo, hi + 1))
    return v if v not in codes else v + 1


def level():
    etime = pick(-9999, -8888, 0, 59, 100, int(rng.integers(0, 140)) * 100 + int(rng.integers(0, 60)), int(rng.integers(0, 999)) * 100 + int(rng.integers(0, 60)))
    l = [int(pick(1, 2, 3)), int(pick(0, 1, 2)), etime, some(1, 110000, codes=(-9999,)), pick("A", "B", " "), some(-500, 40000), pick("A", "B", " "),
         some(-999, 500), pick("A", "B", " "), some(0, 1000), some(0, 500), some(0, 360), some(0, 1200)]
    if rng.random() < 0.25:      # nothing observed but pressure and height
        l[7], l[10], l[11], l[12] = [int(pick(-9999, -8888)) for _ in range(4)]
        if rng.random() < 0.4:
            l[int(pick(7, 10, 11, 12))] = int(rng.integers(0, 300))
    return l


def level_line(l):
    return f"{l[0]:1d}{l[1]:1d} {l[2]:5d} {l[3]:6d}{l[4]}{l[5]:5d}{l[6]}{l[7]:5d}{l[8]}{l[9]:5d} {l[10]:5d} {l[11]:5d} {l[12]:5d} "


def head_line(s):
    y, m, d, h = s["time"]
    _, _, _, _, rel, nl, lat, lon = s["head"]
    return f"#{s['id']} {y:4d} {m:02d} {d:02d} {h:02d} {rel:04d} {nl:4d} {s['src'][0]:8s} {s['src'][1]:8s} {lat:7d} {lon:8d}"


def derived_level():
    m = (-99999,)
    l = [some(1, 110000, 0, m), some(-500, 40000, .15, m), some(-500, 40000, .1, m), some(1500, 3300, .2, m), some(-9999, 9999, .1, m), some(2000, 30000, .1, m),
         some(-9999, 99999, .1, m), some(1500, 3300, .1, m), some(2000, 30000, .1, m), some(0, 99999, .1, m), some(0, 99999, .1, m), some(0, 1000, .2, m),
         some(0, 1000, .1, m), some(-9999, 9999, .1, m), some(-1200, 1200, .2, m), some(-9999, 9999, .1, m), some(-1200, 1200, .2, m),
         some(-99, 9999, .1, m), some(0, 500, .1, m)]
    if rng.random() < 0.15:      # fields filled to their whole width
        for i in (0, 4, 6, 9, 10, 12, 13, 15):
            if rng.random() < .5:
                l[i] = int(rng.integers(100000 if i in (0, 9, 10, 12) else -999999, 9999999))
    if rng.random() < 0.25:
        for i in (3, 11, 14, 16):
            l[i] = -99999
        if rng.random() < 0.4:
            l[int(pick(3, 11, 14, 16))] = int(rng.integers(0, 300))
    return l


def derived_line(l):
    return " ".join(f"{v:7d}" for v in l)


def derived_head_line(s):
    y, m, d, h = s["time"]
    return f"#{s['id']} {y:4d} {m:02d} {d:02d} {h:02d} {s['head'][4]:04d}{s['head'][5]:5d} " + "".join(f"{v:6d}" for v in s["head"][6:])


count = 0


def igra():
    from pyrtlib.apiwebservices import IGRAUpperAir
    global count
    count += 1
    huge = count % 60 in (7, 23)     # soundings with as many levels as the count column holds digits
    derived = bool(rng.random() < 0.4) if not huge else count % 60 == 23
    recent = bool(rng.random() < 0.3)
    sid = pick("SPM00060018", "USM00072520", "ITM00016245", "GMM00010868", "AYM00089009")
    base = (int(rng.integers(1931, 2023)), int(pick(1, 2, 2, 6, 12, 12)), int(pick(1, 15, 27, 28, 31))if True else 0)
    base = (base[0], base[1], min(base[2], 28 if base[1] == 2 else 30 if base[1] == 6 else 31))
    soundings = []
    days = np.cumsum(rng.integers(0, 3, int(rng.integers(1, 9))))
    for k in sorted(set(int(x) for x in days)):
        hours = sorted(rng.choice([0, 3, 6, 11, 12, 18, 23], int(rng.integers(0, 4)), replace=False).tolist()) + ([99] if rng.random() < .3 else [])
        if huge:
            hours = [0, 12] if not soundings else []
        for h in hours:
            ls = [(derived_level if derived else level)() for _ in range(int(rng.integers(1, 9)) if rng.random() < .97 else int(pick(0, 99, 100, 120, 150)))]
            if huge and h == 0:
                big = int(pick(999, 1000, 1003, 1041)) if count % 120 > 60 else 1003
                ls = (ls * big)[:big]
            rel = int(pick(9999, 0, 5, 59, 2359, int(rng.integers(0, 24)) * 100 + int(rng.integers(0, 60))))
            head = day(*base, k) + [int(h), rel, len(ls)]
            if derived:
                m = (-99999,)
                head += [some(0, 9999, .2, m)] + [some(-9999, 99999, .2, m) for _ in range(20)]
                head[7:] = [v if v == -99999 else min(v, 99999) for v in head[7:]]
            else:
                head += [int(pick(-8888, -9999, 0, 123, -45, int(rng.integers(-900000, 900001)))), int(pick(-9999, -8888, 99, int(rng.integers(-1799999, 1800001))))]
            soundings.append(dict(id=sid, time=day(*base, k) + [int(h)], head=head, levels=ls, src=[pick("ncdc-gts", "ncdc6301", "        "), pick("ncdc-nws", "        ")]))
    text = ""
    for s in soundings:
        text += (derived_head_line(s) if derived else head_line(s)) + "\n" + "".join((derived_line(l) if derived else level_line(l)) + "\n" for l in s["levels"])
    status = 200 if rng.random() < 0.92 else int(pick(404, 500, 503))

    def when(edge):
        if soundings and rng.random() < .7:
            t = soundings[int(rng.integers(len(soundings)))]["time"]
            d = datetime.datetime(t[0], t[1], t[2], 0 if t[3] == 99 else t[3])
        else:
            d = datetime.datetime(*day(*base, rng.integers(-2, 12)), int(rng.integers(0, 24)))
        return d + datetime.timedelta(minutes=int(pick(0, 0, 0, 30, -30, 1, -1)))
    if huge:
        a, b = datetime.datetime(*soundings[0]["time"][:3]), datetime.datetime(*soundings[-1]["time"])
        ask, status = (a, b), 200
    elif rng.random() < .4:
        a = b = when(0)
        ask = a
    else:
        a, b = sorted([when(0), when(1)])
        ask = pick((a, b), [a, b])
    buf = io.BytesIO()
    with zipfile.ZipFile(buf, "w") as z:
        z.writestr(f"{sid}.txt", text)
    NET.seen.clear()
    NET.answer = lambda req: (status, "application/zip" if status == 200 else "text/html", buf.getvalue() if status == 200 else b"<html>no</html>")
    r, exc = attempt(lambda: IGRAUpperAir.request_data(ask, sid, beg2021=recent, derived=derived))
    rec = dict(kind="igra", req=dict(id=sid, derived=derived, recent=recent, **{"from": [a.year, a.month, a.day, a.hour, a.minute], "to": [b.year, b.month, b.day, b.hour, b.minute]}),
               soundings=[dict(id=s["id"], time=s["time"], head=s["head"], levels=s["levels"]) for s in soundings], status=status, exc=exc,
               urls=[q.url for q in NET.seen], label="igra" + ("/derived" if derived else ""), body={}, head={}, dates=[], hdates=[], hids=[], units={})
    if not exc:
        def read():
            df, hd = r
            stamp = lambda c: [[t.year, t.month, t.day, t.hour] for t in c]
            rec.update(body={c: column(df[c]) for c in df.columns if c not in ("date",)}, dates=stamp(df["date"]), hdates=stamp(hd["date"]),
                       head={c: column(hd[c]) for c in hd.columns if c not in ("site_id", "date", "pressure_source_code", "non_pressure_source_code")},
                       hids=[str(x) for x in hd["site_id"]], units={k: str(v) for k, v in df.attrs.get("units", {}).items()})
        _, rec["exc"] = attempt(read)
    out.put(**rec)


# --------------------------------------------------------------- Wyoming
def cell(v, w):
    return " " * 7 if v is None else f"{v:7.{w}f}"


def wyoming():
    from pyrtlib.apiwebservices import WyomingUpperAir
    sid = pick("LIRE", "16245", "72520", "PIT", 16245)
    t = datetime.datetime(int(rng.integers(1973, 2030)), int(rng.integers(1, 13)), int(rng.integers(1, 29)), int(pick(0, 12, 6, 18, 3))) + datetime.timedelta(days=int(pick(0, 0, 3)))
    # the hour of the listing and the time the balloon was observed are not always the same
    seen = t + datetime.timedelta(minutes=int(pick(0, 0, 0, -30, -60, 15, 59)))
    nl = int(rng.integers(1, 40)) if rng.random() < .95 else int(rng.integers(100, 260))
    levels = []
    p, h = float(rng.integers(850, 1040)), int(rng.integers(-50, 2500))
    for i in range(nl):
        vals = [round(p, 1), h, round(float(rng.uniform(-90, 45)), 1), round(float(rng.uniform(-110, 30)), 1), int(rng.integers(1, 101)), round(float(rng.uniform(0, 25)), 2),
                int(rng.integers(0, 361)), int(rng.integers(0, 200)), round(float(rng.uniform(250, 900)), 1), round(float(rng.uniform(250, 900)), 1), round(float(rng.uniform(250, 900)), 1)]
        for c in range(1, 11):
            if rng.random() < .06:
                vals[c] = None
            elif rng.random() < .04:
                vals[c] = 0.0
        if rng.random() < .15 and (i or rng.random() < .4):
            vals[2:] = [None] * 9
        levels.append(vals)
        p *= rng.uniform(0.85 if nl < 50 else .97, 0.999); h += int(rng.integers(10, 900))
    if not any(l[2] is not None and l[3] is not None for l in levels):
        levels[0][2], levels[0][3] = 10.5, -3.2
    rows = "\n".join("".join(cell(v, w) for v, w in zip(l, (1, 0, 1, 1, 0, 2, 0, 0, 1, 1, 1))) for l in levels)
    name = pick("LIRE", "", "PIT")
    number, lat, lon, elev = int(rng.integers(1000, 99999)), round(float(rng.uniform(-90, 90)), 2), round(float(rng.uniform(-180, 180)), 2), round(float(rng.uniform(-10, 3000)), 1)
    title = f"{number} {name} Somewhere Observations at {t:%HZ %d %b %Y}"
    dash = "-" * 77
    ident = f"                         Station identifier: {name}\n" if name else ""
    page = (f"<HTML>\n<TITLE>University of Wyoming - Radiosonde Data</TITLE>\n<LINK REL=\"StyleSheet\" HREF=\"/resources/select.css\" TYPE=\"text/css\">\n<BODY BGCOLOR=\"white\">\n"
            f"<H2>{title}</H2>\n<PRE>\n{dash}\n   PRES   HGHT   TEMP   DWPT   RELH   MIXR   DRCT   SKNT   THTA   THTE   THTV\n"
            f"    hPa     m      C      C      %    g/kg    deg   knot     K      K      K \n{dash}\n{rows}\n</PRE><H3>Station information and sounding indices</H3><PRE>\n"
            f"{ident}                             Station number: {number}\n                           Observation time: {seen:%y%m%d/%H%M}\n"
            f"                           Station latitude: {lat}\n                          Station longitude: {lon}\n"
            f"                          Station elevation: {elev}\n                            Showalter index: 0.31\n"
            f"                               Lifted index: -1.98\n</PRE>\n<P>Description of the \n<A HREF=\"/upperair/columns.html\">data columns</A>\n</BODY></HTML>\n")
    what, status, ctype = "good", 200, "text/html"
    r = rng.random()
    if r < .06:
        what, page = "unavailable", pick("<HTML>\n<BODY>\n", "<HTML>\n<TITLE>University of Wyoming - Radiosonde Data</TITLE>\n<LINK REL=\"StyleSheet\" HREF=\"/resources/select.css\" TYPE=\"text/css\">\n<BODY BGCOLOR=\"white\">\n", "") + f"Can't get {number} {name} Somewhere Observations at {t:%HZ %d %b %Y}.\n</BODY></HTML>\n"
    elif r < .10:
        what, page = "busy", "<HTML>\n<BODY>\nSorry, the server is too busy to process your request.\nPlease try again later.\n</BODY></HTML>\n"
    elif r < .14:
        what, status = "failed", int(pick(404, 500, 503))
    elif r < .20:
        what, page = "cut", page[:int(rng.integers(0, page.index("<H3>")))]
    elif r < .23:
        what, page = "empty", ""
    NET.seen.clear()
    NET.answer = lambda req: (status, ctype, page.encode())
    r, exc = attempt(lambda: WyomingUpperAir.request_data(t, sid))
    u = urllib.parse.urlsplit(NET.seen[0].url) if NET.seen else urllib.parse.urlsplit("")
    q = dict(urllib.parse.parse_qsl(u.query, keep_blank_values=True))
    rec = dict(kind="wyoming", base=f"{u.scheme}://{u.netloc}{u.path}".rstrip("/"), query=q, page=what, exc=exc, label="wyoming/" + what,
               req=dict(id=str(sid), year=f"{t:%Y}", month=f"{t:%m}", dayhour=f"{t:%d%H}"),
               levels=[["nan" if v is None else num(v) for v in l[:6]] for l in levels], body={}, meta=[], units={})
    if not exc:
        def read():
            cols = ["pressure", "height", "temperature", "dewpoint", "rh", "mixr"]
            rec["body"] = {c: column(r[c]) for c in cols}
            want = dict(station=name, station_number=str(number), time=seen.isoformat(), latitude=num(lat), longitude=num(lon), elevation=num(elev), title=title)
            show = dict(station=str, station_number=lambda v: str(int(v)), time=lambda v: v.isoformat(), latitude=num, longitude=num, elevation=num, title=str)
            for m in want:
                vals = sorted({show[m](v) for v in r[m]})
                rec["meta"].append([m, vals, [want[m]]])
            rec["units"] = {k: "" if v is None else str(v) for k, v in r.attrs.get("units", {}).items()}
        _, rec["exc"] = attempt(read)
    out.put(**rec)


def stations():
    from pyrtlib.apiwebservices import WyomingUpperAir
    region = pick("europe", "naconf", "samer", "pac", "nz", "ant", "np", "africa", "seasia", "mideast")
    listed = []
    areas = []
    for i in range(int(rng.integers(0, 20))):
        code = str(10000 + i * 37 + int(rng.integers(0, 30)))
        title = pick("Key West", "BIVO Isla de Pascua", "X", "", "St. John's, Nfld") 
        areas.append(f'<AREA COORDS="{i},2,3,4" SHAPE="CIRCLE" HREF="javascript:g(\'{code}\')" TITLE="{code}  {title}">')
        listed.append([code, title.strip()])
        if rng.random() < .2:
            areas.append('<AREA COORDS="1,2,3,4" HREF="/x">')
    status = 200 if rng.random() < .85 else int(pick(404, 500))
    NET.seen.clear()
    NET.answer = lambda req: (status, "text/html", ("<HTML><MAP NAME='raob'>" + "\n".join(areas) + "</MAP></HTML>").encode())
    default = region == "europe" and rng.random() < .5
    r, exc = attempt(lambda: WyomingUpperAir.get_stations() if default else WyomingUpperAir.get_stations(region))
    got = []
    if not exc:
        got, exc = attempt(lambda: [[str(a), str(b)] for a, b in zip(r["station_id"], r["station_name"])])
    out.put(kind="stations", req=dict(region=region), urls=[q.url for q in NET.seen], status=status, exc=exc, stations=listed, got=got or [], label="stations")


# ------------------------------------------------------------------ ERA5
def era5():
    from netCDF4 import Dataset
    from pyrtlib.apiwebservices import ERA5Reanalysis
    shape = int(rng.integers(0, 4))
    nla = int(rng.integers(1, 6))
    nlo = nla if shape < 3 else int(rng.integers(1, 6))
    if shape == 0:
        nla = nlo = 1
    if rng.random() < .12:
        nla, nlo = int(rng.integers(6, 30)), int(rng.integers(6, 30))
    clat, clon = float(rng.uniform(-75, 75)), float(rng.uniform(-170, 170))
    res = float(pick(0.25, 0.5, 1.0, 0.1))
    lats = clat + res * np.arange(nla)
    lons = clon + res * np.arange(nlo)
    ft = str(pick("f8", "f8", "f4"))
    lats, lons = np.array(lats, ft).astype(float), np.array(lons, ft).astype(float)
    if rng.random() < .7:
        lats = lats[::-1]
    if rng.random() < .2:
        lons = lons[::-1]
    nl = int(rng.integers(2, 12)) if rng.random() < .9 else 36 if nla * nlo < 30 else 3
    p = np.sort(rng.choice(np.array([1, 2, 3, 5, 7, 10, 20, 30, 50, 70, 100, 125, 150, 175, 200, 225, 250, 300, 350, 400, 450, 500, 550, 600, 650, 700, 750, 775, 800, 850,
                                     875, 900, 925, 950, 975, 1000]), nl, replace=False))
    packed = bool(rng.random() < .3)
    sh = (1, nl, nla, nlo)
    data = dict(t=rng.uniform(190, 310, sh), r=rng.uniform(0, 105, sh), q=10 ** rng.uniform(-7, -1.8, sh), clwc=10 ** rng.uniform(-9, -3, sh), ciwc=10 ** rng.uniform(-9, -3, sh),
                crwc=10 ** rng.uniform(-9, -3, sh), cswc=10 ** rng.uniform(-9, -3, sh), o3=10 ** rng.uniform(-8, -5, sh))
    hours = int(rng.integers(700000, 1100000))
    global count
    count += 1
    path = os.path.join(tempfile.gettempdir(), f"era5_{count}.nc")
    with Dataset(path, "w", format=str(pick("NETCDF3_64BIT_OFFSET", "NETCDF4", "NETCDF3_CLASSIC"))) as nc:
        for d, s in (("longitude", nlo), ("latitude", nla), ("level", nl), ("time", 1)):
            nc.createDimension(d, s)
        nc.createVariable("longitude", ft, ("longitude",))[:] = lons
        nc.createVariable("latitude", ft, ("latitude",))[:] = lats
        nc.createVariable("level", "i4", ("level",))[:] = p
        tv = nc.createVariable("time", "i4", ("time",))
        tv.units = "hours since 1900-01-01 00:00:00.0"
        tv[:] = [hours]
        for name, v in data.items():
            if packed:
                lo, hi = v.min(), v.max()
                sc = (hi - lo) / 65000 or 1.0
                var = nc.createVariable(name, "i2", ("time", "level", "latitude", "longitude"))
                var.scale_factor, var.add_offset = sc, (hi + lo) / 2
                raw = np.round((v - (hi + lo) / 2) / sc).astype("i2")
                var.set_auto_maskandscale(False)
                var[:] = raw
                data[name] = raw * sc + (hi + lo) / 2
            else:
                nc.createVariable(name, "f8", ("time", "level", "latitude", "longitude"))[:] = v
    lat = float(rng.uniform(lats.min() - .4 * res, lats.max() + .4 * res)); lon = float(rng.uniform(lons.min() - .4 * res, lons.max() + .4 * res))
    if shape == 2:      # towards a point of the diagonal
        i = int(rng.integers(min(nla, nlo)))
        lat, lon = float(lats[i] + rng.uniform(-.4, .4) * res), float(lons[i] + rng.uniform(-.4, .4) * res)
    r, exc = attempt(lambda: ERA5Reanalysis.read_data(path, (lon, lat)))
    os.unlink(path)
    t = datetime.datetime(1900, 1, 1) + datetime.timedelta(hours=hours)
    rec = dict(kind="era5", lats=arr(lats), lons=arr(lons), lat=num(lat), lon=num(lon), levels=[int(x) for x in p], data={k: arr(v[0]) for k, v in data.items()}, packed=packed,
               exc=exc, out={}, times=[], time=t.isoformat(), units={}, label="era5" + ("/square" if nla == nlo else "/oblong"))
    if not exc:
        def read():
            rec["out"] = {c: column(r[c]) for c in ("p", "z", "t", "rh", "clwc", "ciwc", "crwc", "cswc", "o3", "q")}
            rec["times"] = [x.isoformat() for x in r["time"]]
            rec["units"] = {k: str(v) for k, v in r.attrs.get("units", {}).items()}
        _, rec["exc"] = attempt(read)
    out.put(**rec)


class Cds:
    """Stand-in for the client of the climate data store: keeps what it was asked for."""
    asked = []

    class Client:
        def __init__(self, *a, **k):
            pass

        def retrieve(self, name, request, target=None):
            Cds.asked.append((name, dict(request), target))
            if Cds.fail:
                raise RuntimeError("refused")
    fail = False


def cds():
    sys.modules["cdsapi"] = Cds
    import pyrtlib.apiwebservices.erafive as E
    E.cdsapi = Cds
    t = datetime.datetime(int(rng.integers(1959, 2030)), int(rng.integers(1, 13)), int(rng.integers(1, 29)), int(rng.integers(0, 24)))
    t += datetime.timedelta(days=int(pick(0, 0, 3)))
    lon, lat = round(float(rng.uniform(-179, 179)), 3), round(float(rng.uniform(-89, 89)), 3)
    if rng.random() < .2:
        lon = float(pick(179.9, -179.9, 180.0, 0.0, 190.5, 359.9))
    kw = {}
    if rng.random() < .5:
        kw["offset"] = float(pick(0.1, 0.25, 0.5, 1.0))
    if rng.random() < .5:
        kw["resolution"] = float(pick(0.1, 0.5, 1.0))
    Cds.asked, Cds.fail = [], bool(rng.random() < .1)
    path = tempfile.gettempdir()
    r, exc = attempt(lambda: E.ERA5Reanalysis.request_data(path, t, (lon, lat), **kw))
    rec = dict(kind="cds", req=dict(year=t.year, month=t.month, day=t.day, hour=t.hour, lat=num(lat), lon=num(lon), offset=num(kw.get("offset", .4)), resolution=num(kw.get("resolution", .25))),
               failed=Cds.fail, exc=exc, asked=[], label="era5/request")

    def ints(v):
        return [int(str(x).split(":")[0]) for x in (v if isinstance(v, (list, tuple)) else [v])]
    if Cds.asked:
        def read():
            for name, q, target in Cds.asked:
                rec["asked"].append(dict(name=name, year=ints(q["year"]), month=ints(q["month"]), day=ints(q["day"]), hour=ints(q["time"]), area=[num(x) for x in q["area"]],
                                         grid=[num(x) for x in q["grid"]], format=str(q.get("format")), levels=sorted(ints(q["pressure_level"])), variables=sorted(q["variable"]),
                                         product=str(q.get("product_type")), returned=bool(r is not None and str(r) == str(target)), inside=str(target).startswith(path)))
        _, e = attempt(read)
        rec["exc"] = rec["exc"] or e
    out.put(**rec)


G = dict(igra=[igra], wyoming=[wyoming, wyoming, wyoming, stations], era5=[era5, era5, cds])
for i in range(n):
    for f in G[kind]:
        f()
out.close()
