"""QGPV as defined: absolute vorticity plus the stretching of potential temperature."""
import numpy as np

from vf import gen, qg
from vf import model as M

ID = "C02"
RULE = ("QGPV of a random state on the analysis grid recomputed in double precision from the definition, "
        "compared at every grid point; distinct = distinct input state with |QGPV| > 0")
MIN = {"values:qgpv": 10000, "cells:nonzonal": 1000}


def cases(tier, seed):
    n = int(800 * 2.5) if tier == "quick" else 40000
    return qg.grid_cases(seed + 11, n, full=True)


def run(case, mon):
    d = qg.case_of(case)
    jb = qg.jb_case(case)
    q = qg.run(case["cls"], d, "interp", **qg.extra_of(case))
    pv = np.asarray(q.qgpv, float)
    u, v, th = (np.asarray(getattr(q, "interpolated_" + n), float) for n in ("u", "v", "theta"))
    ts, tn, ss, sn = qg.model_stability(case["cls"], d, jb)
    k, nlat, nlon = u.shape
    nd = (nlat + 1) // 2
    north = np.arange(nlat) >= nd - 1
    h = qg.heights(d)
    coef = "zmav" if case["cls"] == "QGFieldNH18" else "f"
    t0 = np.where(north[None, :], tn[:, None], ts[:, None])
    st = np.where(north[None, :], sn[:, None], ss[:, None])
    if coef == "f":
        # the equator row: f vanishes, so either hemisphere's average gives the same
        pass
    want, av, scale = M.qgpv(u, v, th, h, d["H"], d["a"], d["om"], t0, st, coef)
    mon.close(pv[1:-1], want[1:-1], "qgpv", rtol=2.5e-7, scale=scale[1:-1])
    mon.equal(pv[0], np.zeros_like(pv[0]), "surface-level-is-zero")
    mon.equal(pv[-1], np.zeros_like(pv[0]), "top-level-is-zero")
    if case["flavor"] != "zonal":
        mon.count("cells:nonzonal", pv[1:-1].size)
    mon.nontrivial((case["seed"], case["cls"], float(np.abs(pv).max())))
    mon.sample({"case": case, "max_qgpv": float(np.abs(pv).max()), "scale": float(scale.max())})
