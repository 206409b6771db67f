"""Pin the shipped climatology tables as the specification's (run once, at the base commit)."""
import json, os, sys
import numpy as np
d, out = sys.argv[1], sys.argv[2]
cols = lambda f: [[repr(float(v)) for v in c] for c in np.loadtxt(os.path.join(d, f)).T]
t = dict(atm=[cols(n + ".dat") for n in ("tropical", "midlatitude_summer", "midlatitude_winter", "subarctic_summer", "subarctic_winter", "us_standard")],
         minor=cols("gas_minor.dat"), trace=cols("gas_trace.dat"))
json.dump(t, open(out, "w"), indent=0)
