"""Both hemispheres are treated alike: mirroring the atmosphere mirrors every diagnostic."""
import numpy as np

from vf import gen, qg
from vf import relate

ID = "C12"
RULE = ("a state and its mirror image (latitude reversed, v negated) taken through the whole pipeline in both "
        "classes, odd / even / offset grids, both calling orders; distinct = state with eddies")
MIN = {"checked:mirror:qgpv": 60, "checked:mirror:ep2": 40, "checked:mirror:uref": 60, "checked:mirror:lwa_baro": 60}

# field -> sign under reflection (ep2 and ep3 also trade places)
SIGN = {n: 1.0 for n in qg.ALL}
SIGN.update(qgpv=-1.0, interpolated_v=-1.0, qref=-1.0, flux_vector_phi_baro=-1.0, ep2=-1.0, ep3=-1.0,
            divergence_eddy_momentum_flux=1.0)
PARTNER = {"ep2": "ep3", "ep3": "ep2"}


def cases(tier, seed):
    n = int(240 * 2.5) if tier == "quick" else 9000
    return qg.grid_cases(seed + 121, n, full=True, nh=(False,), parities=("odd", "odd", "even", "offset"))


def run(case, mon):
    d = qg.case_of(case)
    m = dict(d)
    m["u"], m["t"] = d["u"][:, ::-1].copy(), d["t"][:, ::-1].copy()
    m["v"] = -d["v"][:, ::-1].copy()
    r = gen.rng_of(case["seed"], 12)
    ncf = mcf = None
    if r.random() < 0.5:
        nlat = d["ylat"].size + (d["ylat"].size + 1) % 2
        ncf = 1e-10 * r.standard_normal((d["kmax"], nlat, d["xlon"].size))
        mcf = -ncf[:, ::-1].copy()
    ex = qg.extra_of(case)
    p = qg.grab(qg.run(case["cls"], d, "layer", ncforce=ncf, **ex))
    q = qg.grab(qg.run(case["cls"], m, "layer", ncforce=mcf, **ex))
    nd = (d["ylat"].size + 1) // 2
    odd = d["ylat"].size % 2 == 1
    ctx = relate.Context(p, d, case, ncf)
    for n in qg.ALL:
        got = q[n]
        want = SIGN[n] * p[PARTNER.get(n, n)]
        ax = 0 if n in qg.FIELDS_BARO else 1
        want = np.flip(want, ax)
        # the one equator row belongs to the southern pass, so it is not its own mirror image;
        # on an even grid it is blended into the two rows around it
        nlat = got.shape[ax]
        if n not in qg.FIELDS_INTERP:
            rows = [i for i in range(nlat) if not (abs(i - (nlat - 1) / 2) < 1)]
            got, want = np.take(got, rows, ax), np.take(want, rows, ax)
        relate.compare(mon, "mirror:" + n, n, got, want, ctx, relate.REL)
    if case["flavor"] != "zonal":
        mon.nontrivial(case["seed"])
    mon.sample({"case": case, "forced": ncf is not None})
