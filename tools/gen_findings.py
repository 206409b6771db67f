#!/usr/bin/env python3
"""Write known_findings.json: open findings (matched by the checks) and the defects fixed in /repo."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPEN = json.load(open(os.path.join(V, "tools", "open_findings.json")))
FIXED = {
 "3efaf79": ("C04", "TbCloudRTE(..., absmdl=m) raised AttributeError instead of selecting the model"),
 "ee27290": ("C10", "descending profiles were simulated without reversing ozone and clouds; non-monotonic heights were accepted"),
 "d571610": ("C02", "the caller's height array was shifted by the first height"),
 "63c72ee": ("C03", "executing again overwrote results already returned and kept cloud values of earlier runs"),
 "1373bdc": ("C05", "tbatm of upwelling simulations was always 0"),
 "b085df2": ("C09", "the top layer of a cloud was missing from the integrated density"),
 "6f35b6a": ("C07", "RTEquation.vapor(ice=True) raised instead of using saturation over ice"),
 "cc19678": ("C01", "a perturbed ozone run left its line list for later simulations"),
 "6105c20": ("C02", "executing with perturbed oxygen parameters wrote into the caller's parameter set"),
 "25163ce": ("C04", "selecting R18, R20SD, R21SD, R22 or MWL24 refused cloud liquid"),
 "b1c3d69": ("C16", "parameter sets of models whose names do not sort by year had the wrong shape or units"),
 "2da8b3b": ("C15", "parameter sets shared arrays with the line lists and each other"),
 "d46d3e9": ("C15", "a scalar uncertainty with an index perturbed every line"),
 "4553347": ("C20", "profiles reaching 50 km were refused or lost levels, and a second call on one object started from the first one's grid"),
 "8380244": ("C19", "the standard atmosphere had no pressure (1e-62 hPa) between 85.99995 and 86 km"),
 "a46fe86": ("C20", "extrapolated humidity was in percent, the measured one a fraction"),
 "872fe98": ("C26", "plot_wf shifted the caller's frequencies and normalised by the wrong maximum"),
 "c68951e": ("C23", "relative humidity returned in percent, documented as fraction"),
 "e90ccbe": ("C27", "MWS channel 9 listed 57.290344-0.217 twice"),
 "171b132": ("C18", "unknown gas and atmosphere identifiers raised UnboundLocalError"),
 "cad810d": ("C22", "missing values of a Wyoming level shifted the following columns"),
 "bc2dc99": ("C21", "wrong file name and column layout of the derived archive"),
 "0f15104": ("C21", "release time HHMM parsed with wrong digits"),
 "8e6a3d1": ("C21", "soundings with hour 99 inside the period were lost"),
 "0450c30": ("C21", "missing-value codes of integer columns were not NaN"),
 "3567ed1": ("C21", "last digit of inversion pressure cut off"),
 "4f67236": ("C21", "coordinates within 0.1 degrees of zero lost their sign/decimals"),
 "e4e734b": ("C26", "height limits between grid levels crashed the figures (no pressure found for the second axis)"),
 "5f32a87": ("C27", "MWS channel 14 was listed at +/- 0.045 GHz instead of +/- 0.0045 GHz"),
 "8edd819": ("C26", "weighting functions of a profile given top down were computed from constant interpolated profiles"),
 "bd50271": ("C17", "the uncertainty of a product or quotient with a zero operand was NaN, that of a power of a negative base negative"),
 "0b4ba4f": ("C16", "xcs of a perturbed R23SD/R24 self continuum was ignored"),
}
out = dict(findings=OPEN, fixed=[f"fixed: property={p} {c} {w}" for c, (p, w) in FIXED.items()])
json.dump(out, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
