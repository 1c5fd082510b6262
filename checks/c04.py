"""Qref: the monotone, area-preserving rearrangement of the observed QGPV."""
import numpy as np

from vf import gen, qg
from vf import model as M

ID = "C04"
RULE = ("Qref of each hemisphere and interior level against an interval bound for the equal-area rearrangement "
        "of that level's QGPV (observed field from the object, rearranged in double precision); distinct = "
        "distinct input state with a non-degenerate PV range")
MIN = {"rows:interval": 2000, "checked:monotone": 100}


def cases(tier, seed):
    n = int(500 * 2.5) if tier == "quick" else 12000
    out = qg.grid_cases(seed + 37, n, full=True)
    r = gen.rng_of(seed, 404)
    for c in out:
        if c["cls"] == "QGFieldNH18" and r.random() < 0.4 and "fullsize" not in c:
            c["npart"] = int(r.choice([12, 20, 45, 90]))
    return out


def run(case, mon):
    d = qg.case_of(case)
    kw = qg.extra_of(case)
    if "npart" in case:
        kw["npart"] = case["npart"]
    kw["raise_error_for_nonconvergence"] = False
    if case["cls"] == "QGFieldNHN22":
        kw.pop("raise_error_for_nonconvergence")
    q = qg.run(case["cls"], d, "ref", **kw)
    pv = np.asarray(q.qgpv, float)
    qref = np.asarray(q.qref, float)
    k, nlat, nlon = pv.shape
    nd = (nlat + 1) // 2
    npart = case.get("npart", nlat)
    a = d["a"]
    dphi, dlam = np.pi / (nlat - 1), 2 * np.pi / nlon
    phi = dphi * np.arange(nd)
    area = M.cap_area(phi, a)
    # areas are summed in single precision, cell by cell
    slack = 3e-6 * 4 * np.pi * a * a * max(1.0, nlat * nlon / 8000)
    width = []
    for north in ((True,) if case["nh"] else (True, False)):
        ref = qref if case["nh"] else qg.hemi(qref, north, -1.0)
        mon.ok(ref.shape == (k, nd), "shape", got=ref.shape, want=(k, nd))
        mon.equal(ref[[0, -1]], np.zeros((2, nd)), "outer-levels-zero")
        for kk in range(1, k - 1):
            f = pv[kk] if north else -pv[kk, ::-1]
            rng = f.max() - f.min()
            tol = 4e-6 * rng + 4e-7 * np.abs(f).max()
            aa = M.AreaAnalysis(f, npart, a, dphi, dlam)
            lo, hi = np.array([aa.q_interval(area[j], slack) for j in range(1, nd - 1)]).T
            mon.within(ref[kk, 1:-1], lo, hi, "equal-area", tol=tol, level=kk, north=north)
            mon.count("rows:interval", nd - 2)
            mon.count("rows:tight", int((hi - lo < 0.02 * rng).sum()))
            mon.close(ref[kk, -1], f.max(), "pole-is-max", atol=tol)
            mon.ok((np.diff(ref[kk, 1:]) >= -tol).all(), "monotone", level=kk, row=ref[kk])
            mon.close(ref[kk, 0], 0.0, "equator", atol=1e-7 * np.abs(f).max())
            # independent of any partition: the area above the contour is that of the polar cap
            w = (np.cos(-np.pi / 2 + dphi * np.arange(nlat))[:, None] * np.ones((1, nlon))
                 * a * a * dphi * dlam)
            o = np.argsort(-f.ravel(), kind="stable")
            cum = np.cumsum(w.ravel()[o])
            srt = f.ravel()[o]
            # the interval that starts at the maximum is not counted (see DESIGN)
            first = w[f > f.max() - aa.dq].sum()
            edge = w[np.abs(f - (f.max() - aa.dq)) < tol].sum() + slack

            def at(x):
                return srt[np.clip(np.searchsorted(cum, x), 0, srt.size - 1)]
            mon.within(ref[kk, 1:-1], at(area[1:-1] + first + edge), at(area[1:-1] + first - edge) + 2 * aa.dq,
                       "rearranged", tol=tol, level=kk)
            width.append(float((hi - lo).max() / rng))
    mon.nontrivial((case["seed"], case["cls"], npart))
    mon.sample({"case": case, "npart": npart, "largest_interval_over_range": max(width)})
