#!/usr/bin/env python3
"""Pin the published covariance matrices (run once, at the base commit): lower triangles, row by row.

gen_cov.py REPO OUT"""
import json, os, sys
from netCDF4 import Dataset
d = os.path.join(sys.argv[1], "pyrtlib/uncertainty/covariance_matrix")
files = dict(R17_111="R17/Cov_parameters_Cimini_et_al_2018_V1.1.nc", R17_112="R17/Cov_parameters_Cimini_et_al_2019_V2.0.nc",
             R19="R19/Cov_parameters_Gallucci_et_al_ACPD_2023_V1.0.nc")
out = {}
for k, f in files.items():
    nc = Dataset(os.path.join(d, f))
    m = nc.variables["Cov_p"][:].data
    out[k] = [["0" if v == 0 else repr(float(v)) for v in row[:i + 1]] for i, row in enumerate(m)]
json.dump(out, open(sys.argv[2], "w"), separators=(",", ":"))
