"""Local wave activity: displacement of QGPV contours, non-negative, in two parts."""
import numpy as np

from vf import gen, qg
from vf import model as M

ID = "C08"
RULE = ("LWA (total, cyclonic, anticyclonic) of a random state by all three entry points, recomputed in double "
        "precision from the object's own QGPV and Qref; distinct = input state with LWA > 0")
MIN = {"values:lwa": 50000, "cells:positive": 20000, "checked:zonal-state": 3}


def cases(tier, seed):
    n = int(200 * 2.5) if tier == "quick" else 10000
    return qg.grid_cases(seed + 81, n, full=True)


def expected(q, d, jb, nh):
    pv = np.asarray(q.qgpv, float)
    k, nlat, nlon = pv.shape
    qref = np.asarray(q.qref, float)
    dphi = np.pi / (nlat - 1)
    out = {}
    for north in ((True,) if nh else (True, False)):
        qr = qref if nh else qg.hemi(qref, north, -1.0)
        p = qg.hemi(pv, north, -1.0)
        nd = p.shape[1]
        c = np.cos(dphi * np.arange(nd))
        a1, a2 = np.zeros_like(p), np.zeros_like(p)
        for j in range(jb, nd - 1):
            qe = p - qr[:, j][:, None, None]
            above = (np.arange(nd) >= j)[None, :, None]
            w = (d["a"] * dphi * c)[None, :, None]
            a2[:, j] = np.where((qe <= 0) & above, -qe * w, 0).sum(1)
            a1[:, j] = np.where((qe > 0) & ~above, qe * w, 0).sum(1)
        for x in (a1, a2):
            x[0] = 0
            x[-1] = 0
        out[north] = (a1, a2)
    if nh:
        return out[True]
    return tuple(qg.put_globe(out[True][i], out[False][i]) for i in (0, 1))


def run(case, mon):
    d = qg.case_of(case)
    jb = qg.jb_case(case)
    cname = case["cls"]
    nh = case["nh"]
    q = qg.run(cname, d, "ref", **qg.extra_of(case))
    a1, a2 = expected(q, d, jb, nh)
    tot = a1 + a2
    pvmax = np.abs(q.qgpv).max(axis=(1, 2))[:, None, None]
    nlat = d["ylat"].size
    # single precision: every summand is a PV difference times a length
    tol = 1e-7 * pvmax * d["a"] * np.pi / 2 + 1e-12 + np.zeros_like(tot)

    def look(name):
        got = np.array(q.lwa, float)
        mon.close(got, tot, "lwa", atol=tol, call=name)
        mon.ok((got >= -0.4 * tol).all(), "non-negative", call=name, least=float(got.min()))
        mon.count("cells:positive", int((got > tol).sum()))
        mon.equal(got[[0, -1]], np.zeros_like(got[[0, -1]]), "outer-levels-zero", call=name)
        mon.equal(got[:, -1], np.zeros_like(got[:, -1]), "pole-zero", call=name)
        if not nh:
            mon.equal(got[:, 0], np.zeros_like(got[:, 0]), "pole-zero", call=name)
        if jb:
            nd = (nlat + 1) // 2
            rows = got[:, :jb] if nh else got[:, nd - jb:nd - 1 + jb]
            mon.equal(rows, np.zeros_like(rows), "below-boundary-zero", call=name)

    def parts(name):
        st = q.layerwise_flux_terms_storage
        for got, want, nm in ((st.astar1, a1, "cyclonic"), (st.astar2, a2, "anticyclonic")):
            got = st.fortran_to_python(np.asarray(got, float))
            mon.close(got, want, nm, atol=tol, call=name)
            mon.ok((got >= -0.4 * tol).all(), "non-negative", call=name + nm)

    order = [0, 1, 2]
    gen.rng_of(case["seed"], 8).shuffle(order)
    for o in order:
        if o == 0:
            q.compute_lwa_only()
            look("only")
            parts("only")
        elif o == 1:
            r = q.compute_lwa_and_barotropic_fluxes()
            look("barotropic")
            mon.equal(r.lwa, q.lwa, "returned-lwa")
            mon.equal(r.lwa_baro, q.lwa_baro, "returned-lwa")
        else:
            q.compute_layerwise_lwa_fluxes()
            look("layerwise")
            parts("layerwise")
    if case["flavor"] == "zonal":
        # no eddies at all: the contours differ from latitude circles only by the partition
        mon.count("checked:zonal-state")
        got = np.asarray(q.lwa, float)
        mon.close(got, np.broadcast_to(got[:, :, :1], got.shape), "zonal-state-is-zonal", atol=tol)
    if tot.max() > 0:
        mon.nontrivial((case["seed"], cname))
    mon.sample({"case": case, "lwa_max": float(tot.max()), "order": order})
