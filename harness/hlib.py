"""Recording helpers. Numbers are written as decimal strings (shortest
round-trip repr), integers as JSON integers, arrays as nested lists."""
import json, os, sys, warnings
import numpy as np

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
warnings.simplefilter("ignore")


def num(v):
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    v = float(v)
    if v != v:
        return "nan"
    if v in (float("inf"), float("-inf")):
        return "inf" if v > 0 else "-inf"
    return repr(v)


def arr(a):
    """Nested lists of decimal strings."""
    a = np.asarray(a)
    if a.ndim == 0:
        return num(a)
    return [arr(x) for x in a]


class Out:
    def __init__(self, path):
        self.f = open(path, "w")
        self.n = 0

    def put(self, **rec):
        self.f.write(json.dumps(rec) + "\n")
        self.n += 1

    def close(self):
        self.f.close()


def exc_name(e):
    return type(e).__name__


def attempt(fn):
    """(result, '') or (None, exception class name)."""
    try:
        return fn(), ""
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            raise
        return None, exc_name(e)


def parallel(fn, items, chunk=4):
    """fn over items in forked worker processes, results in order."""
    import multiprocessing as mp
    with mp.get_context("fork").Pool(8) as pool:
        yield from pool.imap(fn, items, chunk)
