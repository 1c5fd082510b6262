"""Static stability: vertical derivative of the area-weighted hemispheric mean theta."""
import numpy as np

from vf import gen, qg
from vf import model as M

ID = "C03"
RULE = ("static stability profile(s) of a random state compared with a spline of the cos-weighted hemispheric "
        "mean potential temperature; plus exact profiles (theta linear in height); distinct = distinct state")
MIN = {"checked:stability": 20, "checked:linear-profile": 5}


def cases(tier, seed):
    n = int(600 * 2.5) if tier == "quick" else 30000
    out = qg.grid_cases(seed + 23, n, full=True, parities=("odd", "odd", "even", "offset"))
    for i, c in enumerate(out):
        c["linear"] = (i % 4 == 3)
    return out


def run(case, mon):
    d = qg.case_of(case)
    jb = qg.jb_case(case)
    z = M.pseudoheight(d["plev"], d["H"])
    nlat = d["ylat"].size
    if case["linear"]:
        # theta depends on height alone (per hemisphere): its derivative is known exactly
        r = gen.rng_of(case["seed"], 5)
        gs, gn = r.uniform(2e-3, 6e-3, 2)
        if case["cls"] == "QGFieldNH18":
            # one profile for the globe: a jump at the equator only shifts the mean
            pass
        south = d["ylat"] < 0
        g = np.where(south, gs, gn)
        th = 280.0 + g[None, :, None] * z[:, None, None] + np.zeros_like(d["t"])
        d["t"] = th / np.exp(d["R"] / d["cp"] * z / d["H"])[:, None, None]
        q = qg.run(case["cls"], d, "interp", **qg.extra_of(case))
        s = qg.stab(q)
        if case["cls"] == "QGFieldNH18":
            # interpolation to the odd grid mixes the rows next to the equator
            lo, hi = min(gs, gn), max(gs, gn)
            mon.within(s, lo, hi, "linear-profile", tol=1e-9)
            mon.close(s, np.full_like(s, s.mean()), "linear-profile-constant", rtol=1e-9)
            if nlat % 2:
                w = np.cos(np.deg2rad(d["ylat"]))
                m = (w * (d["ylat"] > 0)).sum() + 0.5 * w[nlat // 2] * 1.0
                nd = (nlat + 1) // 2
                ms = (w[:nd] * g[:nd]).sum() / w[:nd].sum()
                mn = (w[-nd:] * g[-nd:]).sum() / w[-nd:].sum()
                mon.close(s, np.full_like(s, 0.5 * (ms + mn)), "linear-profile", rtol=1e-8)
        else:
            want_s = np.full(d["kmax"], gs)
            want_n = np.full(d["kmax"], gn)
            if case["nh"]:
                mon.close(s, want_n, "linear-profile", rtol=1e-8)
            else:
                mon.close(s[0], want_s, "linear-profile", rtol=1e-8)
                mon.close(s[1], want_n, "linear-profile", rtol=1e-8)
    else:
        if nlat % 2 == 0:
            # analysed on the odd grid that has one more row
            th = M.theta_of(d["t"], d["plev"], d["H"], d["R"], d["cp"])
            yl = np.linspace(-90, 90, nlat + 1)
            th = M.lin_interp(d["ylat"], th, yl, axis=1)
            n1 = nlat + 1
        else:
            th, yl, n1 = M.theta_of(d["t"], d["plev"], d["H"], d["R"], d["cp"]), d["ylat"], nlat
        ts, tn, ss, sn = M.stability(d["plev"], th, yl, d["H"], qg.heights(d),
                                     qg.ref_rows(case["cls"], n1, jb))
        q = qg.run(case["cls"], d, "interp", **qg.extra_of(case))
        s = qg.stab(q)
        if case["cls"] == "QGFieldNH18":
            mon.close(s, 0.5 * (ss + sn), "stability", rtol=1e-8)
        elif case["nh"]:
            mon.close(s, sn, "stability", rtol=1e-8)
        else:
            mon.ok(s.shape == (2, d["kmax"]), "two-hemispheres", shape=s.shape)
            mon.close(s[0], ss, "stability", rtol=1e-8)
            mon.close(s[1], sn, "stability", rtol=1e-8)
    mon.nontrivial((case["seed"], case["cls"]))
    mon.sample({"case": case, "stability": s})
