"""Record the covariance matrices and variances computed with them: rec_cov.py OUT n"""
import sys
from hlib import *

out = Out(sys.argv[1])
n = int(sys.argv[2])
rng = np.random.default_rng([SEED, 28])
NAMES = ("R17_111", "R17_112", "R19")


def matrices():
    from pyrtlib.uncertainty import covariance_matrix as C
    return {k: getattr(C, k) for k in NAMES}


M, exc = attempt(matrices)
for name in NAMES:
    def read():
        m = M[name]
        s = np.sqrt(np.abs(np.diag(m)))
        combos = []
        for i in range(n):
            v = rng.normal(size=len(m)) / np.where(s > 0, s, 1)         # as sensitivities: every parameter counts
            if i % 3 == 1:
                v = v * (rng.random(len(m)) < .05)
            if i % 3 == 2:
                v = np.zeros(len(m)); v[rng.integers(len(m), size=2)] = rng.choice([-1, 1], 2)
                v = v / np.where(s > 0, s, 1)
            combos.append(dict(v=arr(v), var=num(v @ m @ v)))
        return arr(m), combos
    r, x = (None, exc) if exc else attempt(read)
    out.put(name=name, m=r[0] if r else [], combos=r[1] if r else [], exc=x, label=name)
out.close()
