"""QGFieldNH18: Uref and PTref invert Qref under the stated boundary conditions."""
import numpy as np

from vf import elliptic as E
from vf import gen, qg
from vf import model as M
from vf.mon import Skip

ID = "C05"
RULE = ("Uref/PTref of QGFieldNH18 for a random state (grids, constants, stability profiles varied), checked "
        "against a direct double-precision solve of the discretised elliptic equation; distinct = input state "
        "whose Uref exceeds 1 m/s")
MIN = {"checked:solution": 40, "checked:ptref": 40}


def cases(tier, seed):
    n = int(300 * 2.5) if tier == "quick" else 12000
    out = qg.grid_cases(seed + 51, n, full=True, classes=("QGFieldNH18",))
    r = gen.rng_of(seed, 505)
    for c in out:
        c["tol"] = 1e-4 if "tol" in c else 1e-5 if "fullsize" in c else float(r.choice([1e-5, 1e-5, 3e-5, 1e-4]))
        if r.random() < 0.15 and "lo" not in c:
            # tighter than the default; beyond what single precision can reach, failure has to be reported
            c["tol"], c["maxit"] = float(r.choice([6e-6, 3e-6, 1e-6, 1e-6, 1e-8])), 4000
        c["rjac"] = float(r.choice([0.95, 0.95, 0.9, 0.97]))
    return out


def run(case, mon):
    d = qg.case_of(case)
    a, om, H, R, cp, dz = (d[x] for x in ("a", "om", "H", "R", "cp", "dz"))
    tol = case["tol"]
    more = {"maxit": case["maxit"]} if "maxit" in case else {}
    try:
        q = qg.run("QGFieldNH18", d, "ref", northern_hemisphere_results_only=case["nh"], tol=tol, rjac=case["rjac"], **more)
    except Skip:
        if not more:
            raise
        mon.count("tight:refused")
        return
    if more:
        mon.count("tight:solved")
    pv, u, v, th = (np.asarray(getattr(q, n), float) for n in qg.FIELDS_INTERP)
    k, nlat, nlon = pv.shape
    nd = (nlat + 1) // 2
    dphi, dlam = np.pi / (nlat - 1), 2 * np.pi / nlon
    phi = dphi * np.arange(nd)
    stat = qg.stab(q)
    slack = 3e-6 * 4 * np.pi * a * a
    for north in ((True,) if case["nh"] else (True, False)):
        if case["nh"]:
            qr, ur, tr = (np.asarray(x, float).T for x in (q.qref, q.uref, q.ptref))
        else:
            qr, ur, tr = (qg.hemi(x, north, s).T for x, s in ((q.qref, -1.0), (q.uref, 1.0), (q.ptref, 1.0)))
        qb, ub, tb = (qg.hemi(x, north, s).mean(-1).T for x, s in ((pv, -1.0), (u, 1.0), (th, 1.0)))
        w = np.cos(phi)
        tmean = (w[:, None] * tb).sum(0) / w.sum()
        # Qref over 2 Omega sin(phi); linear extrapolation to the equator
        with np.errstate(divide="ignore", invalid="ignore"):
            qs = qr / (2 * om * np.sin(phi))[:, None]
        qs[0] = 2 * qs[1] - qs[2]
        F = E.rhs(qs, dphi, a, om)
        A, B, C, D = E.coefs(nd, k, dphi, dz, a, om, H, R, cp, stat)
        # eastward wind at the equator: mean wind plus the circulation surplus of the contour
        ue_lo, ue_hi = np.zeros(k), np.zeros(k)
        for kk in range(1, k - 1):
            f = pv[kk] if north else -pv[kk, ::-1]
            aa = M.AreaAnalysis(f, nlat, a, dphi, dlam)
            lo, hi = aa.c_interval(2 * np.pi * a * a, slack)
            cb = sum(0.5 * (qb[j + 1, kk] + qb[j, kk]) * a * dphi * 2 * np.pi * a * np.cos(phi[j] + 0.5 * dphi)
                     for j in range(nd - 1))
            rnd = 4e-6 * np.abs(f).max()  # circulation of the cap, rounded, over its circumference
            ue_lo[kk] = ub[0, kk] + (lo - cb) / (2 * np.pi * a) - rnd * a
            ue_hi[kk] = ub[0, kk] + (hi - cb) / (2 * np.pi * a) + rnd * a
        ue, due = 0.5 * (ue_lo + ue_hi), 0.5 * (ue_hi - ue_lo)
        kap = R / cp
        ztop = dz * (k - 2)
        inc = np.zeros(nd)
        inc[1:-1] = -dz * R * np.cos(phi[1:-1]) * np.exp(-ztop * kap / H) * (tb[2:, -2] - tb[:-2, -2]) / (
            2 * om * np.sin(phi[1:-1]) * dphi * H * a)
        U, mat = E.system(nd, k, A, B, C, D, F, 1, ue, (2, inc))
        got = ur * np.cos(phi)[:, None]
        scale = max(np.abs(U).max(), 1.0)
        # the relaxation stops at sum|residual| < tol * sum|F|; amplification to u is bounded with |M^-1|
        anorm = tol * np.abs(F[1:-1, 1:-1]).sum()
        import scipy.sparse.linalg as spl
        n = mat.shape[0]
        lu = spl.splu(mat)
        amp = np.abs(lu.solve(np.eye(n))).max() if n <= 400 else 0.5
        rr, ss = E.residual(U, nd, k, A, B, C, D, F, 1)
        err = amp * (2.0 * anorm + 6e-7 * ss.sum()) + due.max() * 1.1 + 2e-4 * scale
        mon.count("solution:tolerance-mm/s", int(1000 * err))
        mon.close(got[1:nd - 1, 1:k - 1], U[1:nd - 1, 1:k - 1], "solution", atol=1.5 * min(err, 0.1 * scale + due.max()))
        # the residual itself, away from the equatorial row
        g = got.copy()
        rr, ss = E.residual(g, nd, k, A, B, C, D, F, 2)
        allowed = 2.0 * anorm + 1.5e-7 * ss.sum()  # two half sweeps, and winds held in single precision
        mon.ok(np.abs(rr).sum() <= allowed, "residual", got=float(np.abs(rr).sum()), allowed=float(allowed), tol=tol,
               relative=float(np.abs(rr).sum() / np.abs(F[1:-1, 1:-1]).sum()))
        # boundary conditions
        mon.equal(ur[1:nd - 1, 0], np.zeros(nd - 2), "surface-wind-zero")
        mon.close(ur[0, 1:k - 1], ub[0, 1:k - 1], "equator-is-mean-wind", atol=1e-5 * scale)
        mon.close(got[1:-1, -1], (got[:, -3] + inc)[1:-1], "top-thermal-wind",
                  atol=2e-4 + 2e-5 * scale + 4e-6 * np.abs(inc).max()
                  + np.abs(th).max() * (3e-7 + 6e-8 * nlon) * dz * R * 2 / (2 * om * np.sin(phi[1:-1]) * dphi * H * a))
        mon.close(ur[-1], 2 * ur[-2] - ur[-3], "pole-extrapolated", atol=2e-6 * (np.abs(ur).max() + 1))
        # potential temperature: thermal wind with Uref, hemispheric mean of the data
        # (exactly zero shape at the equator and the next row before the shift)
        t, mag = E.thermal_wind_theta(ur, phi, dphi, dz, a, om, H, R, cp, tmean, w)
        ttol = 1.5e-6 * (np.abs(t).max() + mag.max()) * (1 + 0.1 * nd)
        if north and not case["nh"]:
            tr = tr.copy()
            tr[0] = t[0]  # a global field has one equator row, and it is the southern hemisphere's
        mon.close(tr, t, "ptref", atol=ttol)
        mon.close((w[:, None] * tr).sum(0) / w.sum(), tmean, "ptref-mean", atol=ttol)
        if np.abs(ur).max() > 1:
            mon.nontrivial((case["seed"], north))
        mon.sample({"case": case, "north": north, "uref_max": float(np.abs(ur).max()),
                    "solution_tolerance": err})
