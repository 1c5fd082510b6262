"""QGFieldNHN22: Uref and PTref invert Qref directly, off an equatorward boundary."""
import numpy as np

from vf import elliptic as E
from vf import gen, qg
from vf import model as M

ID = "C06"
RULE = ("Uref/PTref of QGFieldNHN22 for a random state and equatorward boundary index, checked against a sparse "
        "double-precision solve of the discretised equation with the boundary value bounded from the absolute "
        "vorticity; distinct = input state whose Uref exceeds 1 m/s")
MIN = {"checked:solution": 40, "checked:ptref": 40}


def cases(tier, seed):
    n = int(300 * 2.5) if tier == "quick" else 12000
    return qg.grid_cases(seed + 61, n, full=True, classes=("QGFieldNHN22",))


def run(case, mon):
    d = qg.case_of(case)
    a, om, H, R, cp, dz = (d[x] for x in ("a", "om", "H", "R", "cp", "dz"))
    jb = case["jb"]
    q = qg.run("QGFieldNHN22", d, "ref", **qg.extra_of(case))
    pv, u, v, th = (np.asarray(getattr(q, n), float) for n in qg.FIELDS_INTERP)
    k, nlat, nlon = pv.shape
    nd = (nlat + 1) // 2
    dphi, dlam = np.pi / (nlat - 1), 2 * np.pi / nlon
    phi = dphi * np.arange(nd)
    av = M.avort(u, v, nlat, nlon, a, om)
    ts, tn, ss_, sn = qg.model_stability("QGFieldNHN22", d, jb)
    slack = 3e-6 * 4 * np.pi * a * a
    mon.ok(q.eq_boundary_index == jb and q.jd == nd - jb, "boundary-index")
    for north in ((True,) if case["nh"] else (True, False)):
        if case["nh"]:
            qr, ur, tr = (np.asarray(x, float).T for x in (q.qref, q.uref, q.ptref))
        else:
            qr, ur, tr = (qg.hemi(x, north, s).T for x, s in ((q.qref, -1.0), (q.uref, 1.0), (q.ptref, 1.0)))
        t0, stat = (tn, sn) if north else (ts, ss_)
        tb = qg.hemi(th, north).mean(-1).T
        with np.errstate(divide="ignore", invalid="ignore"):
            qs = qr / (2 * om * np.sin(phi))[:, None]
        qs[0] = 2 * qs[1] - qs[2]
        F = E.rhs(qs, dphi, a, om)
        A, B, C, D = E.coefs(nd, k, dphi, dz, a, om, H, R, cp, stat)
        lo, hi = np.zeros(k), np.zeros(k)
        for kk in range(1, k):
            f = av[kk] if north else -av[kk, ::-1]
            aa = M.AreaAnalysis(f, nlat, a, dphi, dlam, rel=7e-6)
            c0, c1 = aa.c_interval(M.cap_area(phi[jb], a), slack)
            lo[kk], hi[kk] = (c / (2 * np.pi * a) - om * a * np.cos(phi[jb]) for c in (c0, c1))
        rnd = 3e-6 * om * a + 4e-6 * np.abs(av).max() * a
        ue, due = 0.5 * (lo + hi), 1.1 * (hi - lo) + rnd
        inc = np.zeros(nd)
        ztop = dz * (k - 2)
        s = slice(jb + 1, nd - 1)
        inc[s] = -dz * R * np.cos(phi[s]) * np.exp(-ztop * R / cp / H) * (
            tb[jb + 2:nd, -1] - tb[jb:nd - 2, -1]) / (4 * om * np.sin(phi[s]) * dphi * H * a)
        U, mat = E.system(nd, k, A, B, C, D, F, jb + 1, ue, (1, inc))
        got = ur * np.cos(phi)[:, None]
        scale = max(np.abs(U).max(), 1.0)
        # single precision blocks are inverted level by level
        tol = 1.1 * due.max() + 4e-4 * scale + 0.002
        mon.count("solution:tolerance-mm/s", int(1000 * tol))
        mon.close(got[s, 1:], U[s, 1:], "solution", atol=tol)

        # the equation itself, which no boundary value enters two rows off the boundary
        rr, sm = E.residual(got, nd, k, A, B, C, D, F, jb + 2)
        mon.close(rr, np.zeros_like(rr), "residual", atol=1e-6 * sm.max() + 1e-30)
        mon.within(got[jb, 1:], lo[1:], hi[1:], "boundary-circulation", tol=rnd + 0.6 * (hi - lo)[1:])
        mon.equal(ur[jb:, 0], np.zeros(nd - jb), "surface-wind-zero")
        mon.close(got[s, -1] - got[s, -2], inc[s], "top-thermal-wind",
                  atol=1e-3 + 1e-5 * scale + np.abs(th).max() * (4e-7 + 6e-8 * nlon) * dz * R / (4 * om * np.sin(phi[s]) * dphi * H * a))
        mon.close(ur[-1], 2 * ur[-2] - ur[-3], "pole-extrapolated", atol=2e-6 * (np.abs(ur).max() + 1))
        below = slice(0 if (case["nh"] or not north) else 0, jb)
        if jb:
            mon.equal(ur[below], np.zeros_like(ur[below]), "below-boundary-zero")
            mon.equal(tr[below], np.zeros_like(tr[below]), "below-boundary-zero")
        w = np.cos(phi[jb:])
        t, mag = E.thermal_wind_theta(ur[jb:], phi[jb:], dphi, dz, a, om, H, R, cp, t0, w)
        ttol = 1.5e-6 * (np.abs(t).max() + mag.max()) * (1 + 0.1 * nd)
        mon.close(tr[jb:], t, "ptref", atol=ttol)
        mon.close((w[:, None] * tr[jb:]).sum(0) / w.sum(), t0, "ptref-mean", atol=ttol)
        if np.abs(ur).max() > 1:
            mon.nontrivial((case["seed"], north))
        mon.sample({"case": case, "north": north, "uref_max": float(np.abs(ur).max()), "tolerance": tol})
