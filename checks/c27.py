"""Heating: its conversion to a PV forcing, and what the forcing does (and does not do) to the results."""
import numpy as np

from vf import gen, qg
from vf import model as M

ID = "C27"
RULE = ("random states with random heating rates and forcings: the converted forcing against f e^{z/H} d/dz of "
        "heating over stability, its integral along the displaced contours against the definition, linearity, and all "
        "other outputs with and without forcing; distinct = state")
MIN = {"checked:conversion": 100, "checked:definition": 100, "checked:linear": 100, "checked:others-unchanged": 1000,
       "class:QGFieldNH18": 40, "class:QGFieldNHN22": 40, "global": 40}


def cases(tier, seed):
    n = 420 if tier == "quick" else 16000
    out = [dict(seed=int(seed * 100003 + 7), cls=c, flavor="gentle", parity=p, nh=nh, on_grid=False, jb=5, lo=14, hi=14,
                even=True) for c in qg.CLASSES for p in ("even", "offset") for nh in (False, True)]
    return out + qg.grid_cases(seed + 27, n)


def heat_of(r, shape, flavor):
    h = r.normal(size=shape) * 1e-5
    if flavor == 1:
        h = h * 0 + r.normal() * 1e-5
    elif flavor == 2:
        h = np.zeros(shape)
        h[tuple(int(r.integers(0, n)) for n in shape)] = 3e-4
    elif flavor == 3:
        h = np.round(h * 1e5).astype(int)
    return h


def run(case, mon):
    d = qg.case_of(case)
    r = gen.rng_of(case["seed"], 27)
    nlat, nlon = d["ylat"].size, d["xlon"].size
    if case.get("even"):
        # grids without an equator row: one defect, not repaired (see DESIGN.md)
        q = qg.run(case["cls"], d, "interp", **qg.extra_of(case))
        try:
            f = q.compute_ncforce_from_heating_rate(heat_of(r, d["u"].shape, 0))
            qg.solve(q)
            q.compute_lwa_and_barotropic_fluxes(return_named_tuple=False, ncforce=f)
        except (ValueError, AssertionError) as e:
            mon.fail("heating-on-grid-without-equator", why=f"{type(e).__name__}: {e}", cls=case["cls"])
        return
    jb = qg.jb_case(case)
    nh = case["nh"]
    a, H, dz = d["a"], d["H"], d["dz"]
    ts, tn, ss, sn = qg.model_stability(case["cls"], d, jb)
    q = qg.run(case["cls"], d, "interp", **qg.extra_of(case))
    z = qg.heights(d)
    zp = M.pseudoheight(d["plev"], H)
    fl = int(r.choice([0, 0, 0, 1, 2, 3]))
    heat = heat_of(r, d["u"].shape, fl)
    keep = heat.copy()
    got = q.compute_ncforce_from_heating_rate(heat)
    mon.equal(heat, keep, "inputs-untouched")
    # linear in pseudoheight, extended linearly; stability of the own hemisphere, both at the equator
    hz = M.lin_interp(zp, np.asarray(heat, dtype=float), z)
    nd = (nlat + 1) // 2
    st = np.empty((d["kmax"], nlat))
    st[:, :nd - 1], st[:, nd:] = ss[:, None], sn[:, None]
    st[:, nd - 1] = 0.5 * (ss + sn)
    p = np.exp(-z / H)[:, None, None] * hz / st[:, :, None]
    w = np.empty_like(p)
    w[1:-1] = (p[2:] - p[:-2]) / (2 * dz)
    w[0], w[-1] = (p[1] - p[0]) / dz, (p[-1] - p[-2]) / dz
    m = 2 * d["om"] * np.sin(np.deg2rad(d["ylat"]))[None, :, None] * np.exp(z / H)[:, None, None]
    mon.close(got, w * m, "conversion", atol=1e-7 * np.abs(p).max() / dz * np.abs(m).max() + 1e-300, flavor=fl)
    mon.equal(np.shape(got), (d["kmax"], nlat, nlon), "conversion-shape")
    # more heating, proportionally more forcing
    heat2 = heat_of(r, d["u"].shape, 0)
    c = float(r.choice([-2.0, 0.5, 3.0]))
    got2 = q.compute_ncforce_from_heating_rate(heat2)
    mon.close(q.compute_ncforce_from_heating_rate(heat + c * heat2), got + c * got2, "conversion-linear",
              rtol=1e-9, scale=np.abs(got).max() + abs(c) * np.abs(got2).max())
    # the forcing along the displaced contours
    ncf = got if r.random() < 0.5 else r.normal(size=(d["kmax"], nlat, nlon)) * 1e-10
    keep = ncf.copy()
    qg.solve(q)
    order = bool(r.random() < 0.5)
    q.compute_lwa_and_barotropic_fluxes(return_named_tuple=False, ncforce=ncf)
    if order:
        q.compute_layerwise_lwa_fluxes(ncforce=ncf)
    mon.equal(ncf, keep, "inputs-untouched")
    e = qg.expected_layer(q, d, jb, ts, tn, ncf=ncf, northonly=nh)
    want = M.vert_avg(e["ncf"], dz, H)
    # points within single precision of the contour may be counted on either side
    amb = M.vert_avg(near_contour(q, d, jb, ncf, nh), dz, H)
    base = np.abs(ncf).max() * a * np.pi / 2
    mon.close(q.ncforce_baro, want, "definition", atol=amb + 2e-6 * base + 1e-300)
    q1 = np.array(q.ncforce_baro)
    others = [n for n in qg.FIELDS_BARO + qg.FIELDS_REF + (qg.FIELDS_LAYER if order else []) if n != "ncforce_baro"]
    first = {n: np.array(getattr(q, n)) for n in others}
    # linear
    q.compute_lwa_and_barotropic_fluxes(return_named_tuple=False, ncforce=got2)
    q2 = np.array(q.ncforce_baro)
    q.compute_lwa_and_barotropic_fluxes(return_named_tuple=False, ncforce=ncf + c * got2)
    mon.close(q.ncforce_baro, q1 + c * q2, "linear",
              atol=3e-6 * (base + abs(c) * np.abs(got2).max() * a * np.pi / 2) + 1e-300)
    # nothing else feels it
    q.compute_lwa_and_barotropic_fluxes(return_named_tuple=False)
    if order:
        q.compute_layerwise_lwa_fluxes()
    mon.equal(q.ncforce_baro, np.zeros_like(q1), "no-forcing")
    for n in others:
        mon.equal(getattr(q, n), first[n], "others-unchanged", name=n)
    mon.count("class:" + case["cls"])
    mon.count("global", not nh)
    mon.nontrivial([case["seed"], case["cls"]])


def near_contour(q, d, jb, ncf, nh):
    """Per level, row and longitude: forcing on points whose PV is within rounding of the reference of the row."""
    pv, qref = np.asarray(q.qgpv, float), np.asarray(q.qref, float)
    nlat = pv.shape[1]
    dphi = np.pi / (nlat - 1)

    def one(north):
        p = qg.hemi(pv, north, -1.0)
        f = np.abs(qg.hemi(ncf, north))
        rf = qref if nh else qg.hemi(qref, north, -1.0)
        nd = p.shape[1]
        w = d["a"] * dphi * np.cos(dphi * np.arange(nd))
        out = np.zeros_like(p)
        for j in range(jb, nd - 1):
            tol = 1e-6 * np.abs(p).max(axis=(1, 2), keepdims=True)
            out[:, j] = np.where(np.abs(p - rf[:, j][:, None, None]) <= tol, f * w[None, :, None], 0.0).sum(1)
        return out

    n = one(True)
    return n if nh else qg.put_globe(n, one(False))
