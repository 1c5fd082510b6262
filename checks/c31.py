"""The legacy reference-wind solver against its equations."""
import warnings

import numpy as np

from vf import gen

ID = "C31"
RULE = ("random zonal-mean states, wave activities, stratification factors and boundary data on odd, even and cell-centred "
        "grids; the discretised inversion is assembled again and solved densely; distinct = case")
MIN = {"checked:wind-correction": 100, "checked:reference-wind": 100, "checked:linear": 10, "checked:boundary-data": 30, "checked:temperature-correction": 100, "checked:continued": 150}
ASSUMPTIONS = ["the factor before the shear in the legacy temperature correction may be taken in the middle or at the poleward end "
               "of a step, and its value at the node(s) next to the pole and its mean are left open: the documentation does not fix them"]

A, R, H, CP, OM, DZ = 6378000.0, 287.0, 7000.0, 1004.0, 7.29e-5, 1000.0
KAPPA = R / CP


def cases(tier, seed):
    n = 160 if tier == "quick" else 4000
    return [dict(seed=int(seed * 1019 + i)) for i in range(n)]


def smooth(r, nlat, kmax, scale, positive=False):
    x = np.linspace(-1, 1, nlat)
    z = np.linspace(0, 1, kmax)[:, None]
    f = sum(r.normal() * np.cos(r.uniform(0, 4) * x + r.normal() + r.uniform(0, 3) * z) for _ in range(3))
    f = f + 0.05 * r.normal(size=(kmax, nlat))
    if positive:
        f = np.abs(f) + 0.05
    return scale * f


def state(r):
    nlat = int(r.integers(16, 90))
    kmax = int(r.integers(5, 16))
    if nlat % 2 == 0 and r.random() < 0.5:
        d = 180.0 / nlat
        ylat = -90 + d / 2 + d * np.arange(nlat)
    else:
        ylat = np.linspace(-90, 90, nlat)
        ylat[np.abs(ylat) < 1e-9] = 0.0
    s = dict(zmum=smooth(r, nlat, kmax, 30.0), FAWA_cos=smooth(r, nlat, kmax, 60.0, True), ylat=ylat,
             ephalf2=smooth(r, nlat, kmax, float(10 ** r.uniform(5, 7)), True),
             Delta_PT=smooth(r, nlat, 1, 20.0)[0], zm_PT=300 + smooth(r, nlat, kmax, 20.0),
             Input_B0=smooth(r, nlat, 1, float(10 ** r.uniform(4, 7)))[0], Input_B1=smooth(r, nlat, 1, float(10 ** r.uniform(4, 7)))[0])
    if r.random() < 0.2:      # winds stored as integers are the numbers they are
        s["zmum"] = np.rint(s["zmum"]).astype(r.choice(["i4", "i8"]))
    return s


def lin(x0, y0, x):
    """Linear interpolation along the last axis, continued beyond the ends."""
    y0 = np.atleast_2d(y0)
    i = np.clip(np.searchsorted(x0, x, side="right") - 1, 0, len(x0) - 2)
    w = (x - x0[i]) / (x0[i + 1] - x0[i])
    return y0[:, i] * (1 - w) + y0[:, i + 1] * w


def model(s):
    nlat = s["ylat"].size
    kmax = s["zmum"].shape[0]
    n = nlat // 4
    dm = 1.0 / (n + 1)
    mu = dm * np.arange(n + 2)
    cor = 2 * OM * mu[1:-1]
    c2 = 1 - mu[1:-1] ** 2
    deg = np.degrees(np.arcsin(mu))
    inner = deg[1:-1]
    ylat = s["ylat"]
    u, act, eps = (lin(ylat, s[k], inner) for k in ("zmum", "FAWA_cos", "ephalf2"))
    dpt, b0, b1 = (lin(ylat, s[k], deg)[0] for k in ("Delta_PT", "Input_B0", "Input_B1"))
    q = np.zeros((kmax, n + 2))
    q[:, 1:-1] = -act / cor
    rhs = q[:, 2:] - 2 * q[:, 1:-1] + q[:, :-2]
    g = (dm / DZ) ** 2
    N = n * kmax
    rows = {}
    out = []
    at = lambda j, k: k * n + j
    M = np.zeros((N, N))
    b = np.zeros(N)
    for k in range(1, kmax - 1):
        for j in range(n):
            e = at(j, k)
            up, dn = g * eps[k, j] * np.exp(-DZ / (2 * H)), g * eps[k - 1, j] * np.exp(DZ / (2 * H))
            M[e, e] = -(2 + up + dn)
            if j:
                M[e, at(j - 1, k)] = 1
            if j < n - 1:
                M[e, at(j + 1, k)] = 1
            M[e, at(j, k + 1)] = up
            M[e, at(j, k - 1)] = dn
            b[e] = rhs[k, j]
    top = -R * c2 * np.exp(-KAPPA * (kmax - 2) * DZ / H) * (dpt[2:] - dpt[:-2]) / (cor ** 2 * A * H * dm / DZ)
    lap = lambda f: f[2:] - 2 * f[1:-1] + f[:-2]
    bottom = -R * c2 * 2 * DZ / (cor ** 2 * A ** 2 * H * dm ** 2) * (lap(b1) * np.exp(-KAPPA * DZ / H) + lap(b0))
    for j in range(n):
        M[at(j, kmax - 1), at(j, kmax - 1)] = 1
        M[at(j, kmax - 1), at(j, kmax - 3)] = -1
        b[at(j, kmax - 1)] = top[j]
    M2, b2 = M.copy(), b.copy()
    for j in range(n):
        M[at(j, 0), at(j, 0)] = 1
        b[at(j, 0)] = u[0, j] * np.sqrt(c2[j]) / cor[j]
        M2[at(j, 0), at(j, 2)] = 1
        M2[at(j, 0), at(j, 0)] = -1
        b2[at(j, 0)] = bottom[j]
    res, conds = [], []
    rowsN = slice(nlat // 2, None)
    for mat, vec in ((M, b), (M2, b2)):
        w = np.linalg.solve(mat, vec).reshape(kmax, n)
        full = np.zeros((kmax, n + 2))
        full[:, 1:-1] = w * cor / np.sqrt(c2)
        temps = []
        for shift in (0, 1):
            # thermal wind integrated over two steps at a time from the equator, with the factor before the shear
            # taken in the middle of the step or at its poleward end
            T = np.zeros((kmax, n + 2))
            last = 0
            for j in range(2, n, 2):
                m = mu[j - 1 + shift]
                fac = 2 * OM * m * A * H * dm / DZ / (R * np.sqrt(1 - m * m))
                T[1:-2, j] = T[1:-2, j - 2] - fac * (full[2:-1, j - 1] - full[:-3, j - 1])
                last = j
            node = lin(mu[:last + 1:2], T[:, :last + 1:2], mu[:last + 1]) if last else T[:, :1]
            rows_t = np.flatnonzero((ylat >= 0) & (ylat <= deg[last]))
            temps.append(lin(deg[:last + 1], node, ylat[rows_t]) if rows_t.size > 1 and last else None)
        res.append((lin(deg, full, ylat[rowsN]), temps, rows_t))
        conds.append(np.linalg.cond(mat))
    return res, conds, rowsN


def continuation(r, mon, lib):
    """The legacy helper continues an interpolant along its end segments."""
    from scipy import interpolate
    n = int(r.integers(2, 12))
    x = np.cumsum(r.uniform(0.1, 3.0, n)) - float(r.uniform(0, 10))
    y = 10 * r.normal(size=n)
    at = np.concatenate([r.uniform(x[0] - 5, x[-1] + 5, 9), x[:1], x[-1:]])
    got = np.asarray(lib.extrap1d(interpolate.interp1d(x, y))(at), float)
    if mon.ok(got.shape == at.shape, "continued", got=got.shape):
        steep = np.abs(np.diff(y) / np.diff(x)).max()
        mon.close(got, lin(x, y, at)[0], "continued", atol=1e-12 * (100 + 40 * steep))


def run(case, mon):
    from falwa.legacy import beta_version
    r = gen.rng_of(case["seed"], 31)
    mon.nontrivial(case["seed"])
    s = state(r)

    def call(s):
        keep = {k: v.copy() for k, v in s.items()}
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            got = beta_version.solve_uref_both_bc("t", **s)
        mon.ok(any(issubclass(w.category, DeprecationWarning) for w in ws), "says-it-is-deprecated")
        for k in s:
            mon.equal(s[k], keep[k], "inputs-untouched", what=k)
        return [np.asarray(g) for g in got]

    continuation(r, mon, beta_version)
    got = call(s)
    if not mon.ok(len(got) == 8, "eight-results", n=len(got)):
        return
    want, conds, north = model(s)
    kmax, nlat = s["zmum"].shape
    z = np.arange(kmax)
    temp = s["zm_PT"] * np.exp(-KAPPA * z * DZ / H)[:, None]
    for i, (name, (w, temps, rows_t), cond) in enumerate(zip(("noslip", "adiabatic"), want, conds)):
        du, uref, dt, tref = got[4 * i:4 * i + 4]
        tol = 1e-15 * 50 * cond * np.abs(w).max() + 1e-9
        if cond < 1e10:
            mon.close(du[:, north], w, "wind-correction", atol=tol, what=name)
            mon.close(uref[:, north], s["zmum"][:, north] - w, "reference-wind", atol=tol + 1e-10, what=name)
            if temps[0] is not None:
                d = dt[:, rows_t] - dt[:, rows_t[:1]]
                size_t = max(np.abs(t).max() for t in temps) + 1e-9
                errs = [np.abs(d - (t - t[:, :1])).max() for t in temps]
                mon.ok(min(errs) <= 1e-13 * cond * size_t + 1e-8, "temperature-correction", what=name, errors=errs, size=size_t)
        mon.close(uref[:, north], s["zmum"][:, north] - du[:, north], "reference-wind", atol=1e-12 * (100 + np.abs(w).max()), what=name)
        mon.close(tref[:, north], temp[:, north] - dt[:, north], "reference-temperature", atol=1e-12 * (400 + np.abs(dt).max()), what=name)
        south = slice(0, nlat // 2)
        for f in (du, uref, dt, tref):
            mon.close(f[:, south], np.zeros_like(f[:, south]), "southern-rows-empty", what=name)
    kind = case["seed"] % 4
    size = lambda i: max(np.abs(got[i]).max(), 1.0)
    if kind == 0:
        # the corrections are linear in wave activity, wind and boundary data together
        t = dict(s)
        f = float(r.choice([2.0, -1.0, 0.5]))
        for k in ("zmum", "FAWA_cos", "Delta_PT", "Input_B0", "Input_B1"):
            t[k] = f * s[k]
        g2 = call(t)
        for i in (0, 2, 4, 6):
            mon.close(g2[i], f * got[i], "linear", atol=1e-13 * max(conds) * size(i) + 1e-9, result=i)
    elif kind == 1:
        # a constant added to the upper boundary's temperature contrast, a mean temperature or the winds aloft changes no correction
        t = dict(s)
        t["Delta_PT"] = s["Delta_PT"] + 5.0
        t["zm_PT"] = s["zm_PT"] + r.normal(size=s["zm_PT"].shape)
        t["zmum"] = s["zmum"] * 1.0
        t["zmum"][1:] += r.normal(size=t["zmum"][1:].shape)
        g2 = call(t)
        for i in (0, 2, 4, 6):
            mon.close(g2[i], got[i], "boundary-data", atol=1e-13 * max(conds) * size(i) + 1e-9, result=i)
    elif kind == 2:
        # each boundary condition only listens to its own data
        t = dict(s)
        t["Input_B0"], t["Input_B1"] = r.normal(size=nlat) * 1e6, r.normal(size=nlat) * 1e6
        g2 = call(t)
        for i in (0, 1, 2, 3):
            mon.equal(g2[i], got[i], "boundary-data", result=i)
        t = dict(s)
        t["zmum"] = s["zmum"] + 10.0
        g2 = call(t)
        for i in (4, 6, 7):
            mon.equal(g2[i], got[i], "boundary-data", result=i)
    else:
        # the Southern Hemisphere's values play no part, but for the row next to the equator
        t = {k: v.copy() for k, v in s.items()}
        far = np.flatnonzero(s["ylat"] < 0)[:-2]
        for k in ("zmum", "FAWA_cos", "ephalf2", "Delta_PT", "zm_PT", "Input_B0", "Input_B1"):
            t[k][..., far] = t[k][..., far] * 1.5 + 1.0
        g2 = call(t)
        for i in range(8):
            mon.equal(g2[i], got[i], "northern-data-only", result=i)
