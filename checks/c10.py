"""Layerwise flux terms: each as defined, from the object's own fields and reference states."""
import numpy as np

from vf import gen, qg
from vf import model as M

ID = "C10"
RULE = ("every layerwise term (ua1, ua2, ep1, ep2, ep3, stretch_term) of a random state at every grid cell "
        "recomputed in double precision; distinct = input state")
MIN = {"values:ep1": 30000, "values:ua2": 30000, "values:stretch_term": 30000}


def cases(tier, seed):
    n = int(240 * 2.5) if tier == "quick" else 12000
    return qg.grid_cases(seed + 101, n, full=True)


def stretch(q, d, ss, sn, nh):
    """-f e^{z/H} d/dz( e^{-z/H} v (theta - PTref) cos(phi) / (d theta0/dz) )."""
    v = np.asarray(q.interpolated_v, float)
    th = np.asarray(q.interpolated_theta, float)
    pt = np.asarray(q.ptref, float)
    k, nlat, nlon = v.shape
    nd = (nlat + 1) // 2
    if nh:
        v, th = v[:, nd - 1:], th[:, nd - 1:]
        phi = np.deg2rad(d["ylat"][nd - 1:])
        st = np.broadcast_to(sn[:, None], (k, nd))
    else:
        phi = np.deg2rad(d["ylat"])
        st = np.where((np.arange(nlat) >= nd - 1)[None, :], sn[:, None], ss[:, None])
    z = qg.heights(d)
    g = np.exp(-z / d["H"])[:, None, None] * v * (th - pt[:, :, None]) * np.cos(phi)[None, :, None] / st[:, :, None]
    out = np.zeros_like(g)
    out[1:-1] = (g[2:] - g[:-2]) / (2 * d["dz"])
    out[0] = (g[1] - g[0]) / d["dz"]
    out[-1] = (g[-1] - g[-2]) / d["dz"]
    f = 2 * d["om"] * np.sin(phi)
    res = -f[None, :, None] * np.exp(z / d["H"])[:, None, None] * out
    return res, np.abs(g).max() * 2 * d["om"] * np.exp(z[-1] / d["H"]) / d["dz"]


def run(case, mon):
    d = qg.case_of(case)
    jb = qg.jb_case(case)
    nh = case["nh"]
    q = qg.run(case["cls"], d, "ref", **qg.extra_of(case))
    q.compute_layerwise_lwa_fluxes()
    ts, tn, ss, sn = qg.model_stability(case["cls"], d, jb)
    e = qg.expected_layer(q, d, jb, ts, tn, northonly=nh)
    u, v, th = (np.abs(np.asarray(getattr(q, n), float)).max() for n in qg.FIELDS_INTERP[1:])
    uref = np.abs(q.uref).max()
    pv = np.abs(q.qgpv).max(axis=(1, 2))[:, None, None]
    lw = pv * d["a"] * np.pi / 2
    U = u + uref
    Z = np.zeros_like(e["ua1"])
    tol = {
        "ua1": 3e-8 * uref * lw, "ua2": 3e-8 * U * lw,
        "ep1": 1e-6 * (U ** 2 + v ** 2) + e["ep1_tol"],
        "ep2": 2e-6 * U * v, "ep3": 2e-6 * U * v,
    }
    for n in ("ua1", "ua2", "ep1", "ep2", "ep3"):
        mon.close(getattr(q, n), e[n], n, atol=tol[n] + 1e-12 + Z)
    s, sc = stretch(q, d, ss, sn, nh)
    mon.close(q.stretch_term, s, "stretch_term", atol=1e-9 * sc)
    # F1 is the advection of LWA by the reference wind, F2 and F3 vanish without eddies
    lwa = np.asarray(q.lwa, float)
    mon.close(q.ua1, lwa * np.asarray(q.uref, float)[:, :, None], "ua1-is-uref-times-lwa", atol=2e-8 * uref * lw + Z)
    mon.nontrivial((case["seed"], case["cls"]))
    mon.sample({"case": case, "max": {n: float(np.abs(e[n]).max()) for n in ("ua1", "ua2", "ep1", "ep2")}})
