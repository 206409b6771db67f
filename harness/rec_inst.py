"""Replay histories of channel lists: rec_inst.py OUT HISTORIES"""
from hlib import *

SPELL = dict(lower=str.lower, upper=str.upper, title=str.title, mixed=lambda s: "".join(c.upper() if i % 2 else c for i, c in enumerate(s)))


def replay(evs):
    from pyrtlib import utils as U
    lists, res = [], []
    for e in evs:
        exc = ""
        if e["op"] == "ask":
            f = U.get_frequencies if e["kind"] == "ground" else U.get_frequencies_sat
            r, exc = attempt((lambda: f()) if e["spelling"] == "default" else lambda: f(SPELL[e["spelling"]](e["name"])))
            if exc == "":
                lists.append(r)
        else:
            r, n = lists[e["list"] - 1], len(lists[e["list"] - 1])
            if e["how"] == "set":
                r[(e["at"] - 1) % n] = e["value"] / 1e6
            else:
                r[:] = [0.0] * n if e["how"] == "zero" else list(r)[::-1] if e["how"] == "flip" else [x + e["value"] / 1e6 for x in r]
        res.append(dict(e, exc=exc, lists=[arr(x) for x in lists]))
    return res


out = Out(sys.argv[1])
for evs in parallel(replay, [json.loads(line) for line in open(sys.argv[2])]):
    out.put(evs=evs, label="channel lists")
out.close()
