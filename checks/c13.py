"""No longitude is special: rotating the atmosphere rotates every diagnostic."""
import numpy as np

from vf import gen, qg
from vf import relate

ID = "C13"
RULE = ("a state and the same state rotated by a random number of grid points, through the whole pipeline (both "
        "classes, all grids, hemispheric and global), plus a relabelled longitude axis; distinct = state, shift")
MIN = {"checked:rotate:qgpv": 60, "checked:rotate:ep1": 60, "checked:rotate:uref": 60, "checked:relabel:lwa": 30}


def cases(tier, seed):
    n = int(240 * 2.5) if tier == "quick" else 9000
    return qg.grid_cases(seed + 131, n, full=True, parities=("odd", "odd", "even", "offset"))


def run(case, mon):
    d = qg.case_of(case)
    r = gen.rng_of(case["seed"], 13)
    nlon = d["xlon"].size
    s = int(r.choice([1, nlon - 1, int(r.integers(1, nlon))]))
    m = dict(d)
    for n in ("u", "v", "t"):
        m[n] = np.roll(d[n], s, axis=-1)
    ncf = mcf = None
    if r.random() < 0.5:
        nlat = d["ylat"].size + (d["ylat"].size + 1) % 2
        ncf = 1e-10 * r.standard_normal((d["kmax"], nlat, nlon))
        mcf = np.roll(ncf, s, axis=-1)
    ex = qg.extra_of(case)
    p = qg.grab(qg.run(case["cls"], d, "layer", ncforce=ncf, **ex))
    q = qg.grab(qg.run(case["cls"], m, "layer", ncforce=mcf, **ex))
    ctx = relate.Context(p, d, case, ncf)
    for n in qg.ALL:
        want = p[n] if n in qg.FIELDS_REF else np.roll(p[n], s, axis=-1)
        relate.compare(mon, "rotate:" + n, n, q[n], want, ctx, relate.REL)
    if r.random() < 0.5:
        # the axis labels carry no information beyond their number
        z = dict(d)
        z["xlon"] = d["xlon"] - 180.0
        q = qg.grab(qg.run(case["cls"], z, "layer", ncforce=ncf, **ex))
        for n in qg.ALL:
            mon.equal(q[n], p[n], "relabel:" + n)
    if case["flavor"] != "zonal":
        mon.nontrivial((case["seed"], s))
    mon.sample({"case": case, "shift": s, "forced": ncf is not None})
