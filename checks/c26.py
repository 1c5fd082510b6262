"""The stand-alone operators: stability, QGPV from vorticity, divergences, curl, vertical derivative."""
import numpy as np

from vf import baro, gen

ID = "C26"
RULE = ("random fields on random grids through the stand-alone operators: definition cell by cell (including the first "
        "and last row, column and level), analytic fields, periodicity in longitude, memory poisoned beforehand; "
        "distinct = case")
MIN = {"checked:stability-north": 200, "checked:stability-linear": 60, "checked:qgpv": 200, "checked:stretching": 200,
       "checked:zonal-convergence": 200, "checked:meridional-divergence": 200, "checked:curl": 200,
       "checked:vertical-derivative": 200, "checked:rotation-invariant": 200, "qgpv:gap": 30, "edge-rows": 100,
       "integer-fields": 100}


def cases(tier, seed):
    n = 1500 if tier == "quick" else 60000
    return [dict(seed=int(seed * 1009 + i)) for i in range(n)]


def poison(r, *shapes):
    """Leave memory of these sizes behind with recognisable rubbish in it."""
    junk = [np.full(s, np.nan if r.random() < 0.5 else 7e77) for s in shapes for _ in range(3)]
    del junk


def run(case, mon):
    from falwa import utilities as U
    r = gen.rng_of(case["seed"], 26)
    kind, y, x = baro.grid(r, lo=4, hi=40)
    n, m = y.size, x.size
    a = float(r.choice([6.378e6, 1.0, 3.39e6]))
    rad = {} if a == 6.378e6 and r.random() < 0.5 else dict(planet_radius=a)
    clat = np.abs(np.cos(np.deg2rad(y)))
    lam = np.deg2rad(x)
    dlam = 2 * np.pi / m
    dphi = float(np.pi / (n - 1)) if r.random() < 0.5 else float(r.uniform(0.01, 0.2))
    s = float(r.choice([1.0, 1e-6, 1e5]))
    f = r.normal(size=(n, m)) * s
    g = r.normal(size=(n, m)) * s
    whole = r.random() < 0.2        # fields stored as integers are the numbers they are
    if whole:
        s = 100.0
        it = r.choice(["i4", "i8"])
        f = np.rint(r.normal(size=(n, m)) * s).astype(it)
        g = np.rint(r.normal(size=(n, m)) * s).astype(it if r.random() < 0.6 else "f8")
    mon.count("integer-fields", whole)
    mon.nontrivial([case["seed"]])
    args = baro.Args(f=f, g=g, clat=clat, y=y)
    big = clat > 1e-5
    tk = {}
    if r.random() < 0.3:
        tk["tol"] = tol = float(np.sort(clat)[int(r.integers(0, n))]) * (1 + 1e-9) if r.random() < 0.5 else 1e-9
        big = clat > tol
    f = baro.layout(r, f)
    lo = clat[big].min() if big.any() else 1.0
    mon.count("edge-rows", bool(big[0] or big[-1]))

    # zonal convergence: -1/(a cos) dF/dlambda, periodic, zero at the poles
    got = U.zonal_convergence(f, clat, dlam, **rad, **tk)
    want = np.zeros((n, m))
    d = np.roll(f, -1, 1) - np.roll(f, 1, 1)
    want[big] = -d[big] / (2 * dlam * a * clat[big, None])
    mon.close(got, want, "zonal-convergence", atol=1e-13 * s * 10 / (dlam * a * lo))
    k = int(r.integers(1, m))
    mon.close(U.zonal_convergence(np.roll(f, k, 1), clat, dlam, **rad, **tk), np.roll(got, k, 1), "rotation-invariant",
              atol=1e-13 * s * 10 / (dlam * a * lo))
    mon.close(got.sum(1), np.zeros(n), "zonal-closes", atol=1e-12 * s * 10 * m / (dlam * a * lo))

    # meridional divergence: 1/(a cos) d(F cos)/dphi, one-sided where there is no neighbour
    got = U.meridional_divergence(f, clat, dphi, **rad, **tk)
    fc = f * clat[:, None]
    d = np.zeros((n, m))
    d[1:-1] = (fc[2:] - fc[:-2]) / (2 * dphi)
    d[0] = (fc[1] - fc[0]) / dphi
    d[-1] = (fc[-1] - fc[-2]) / dphi
    want = np.zeros((n, m))
    want[big] = d[big] / (a * clat[big, None])
    mon.close(got, want, "meridional-divergence", atol=1e-13 * s * 10 / (dphi * a * lo))

    # curl; zero on the first and last row
    if (clat[1:-1] > 1e-8).all():
        got = U.curl_2d(f, g, clat, dlam, dphi, **rad)
        dv = (np.roll(g, -1, 1) - np.roll(g, 1, 1)) / (2 * dlam)
        du = np.zeros((n, m))
        du[1:-1] = (fc[2:] - fc[:-2]) / (2 * dphi)
        want = np.zeros((n, m))
        want[1:-1] = (dv - du)[1:-1] / (a * clat[1:-1, None])
        lo2 = clat[1:-1].min()
        mon.close(got, want, "curl", atol=1e-13 * 10 * s * (1 / dphi + 1 / dlam) / (a * lo2))
    args.check(mon)

    # static stability of the two domains
    kmax = int(r.integers(3, 15))
    z = np.cumsum(r.uniform(200.0, 1800.0, kmax)) - 500.0
    if r.random() < 0.5:
        z = np.arange(kmax) * float(r.choice([500.0, 1000.0]))
    th = 280.0 + 4e-3 * z[:, None, None] + 12 * np.cos(np.deg2rad(y))[None, :, None] + r.normal(size=(kmax, n, m)) * 2
    lin = r.random() < 0.35
    if lin:
        gs, gn = r.uniform(2e-3, 6e-3, 2)
        th = 300.0 + np.where(y < 0, gs, gn)[None, :, None] * z[:, None, None] + np.zeros((kmax, n, m))
    if whole and not lin:
        th = np.rint(th * 3).astype(it)
    ak, area = baro.areas(r, y, m, a)
    area = np.abs(area) + 1e-6 * area.max()
    kw = {}
    s_et = n_et = n // 2
    if r.random() < 0.6:
        s_et, n_et = kw["s_et"], kw["n_et"] = int(r.integers(1, n)), int(r.integers(1, n))
    zm, am = th.mean(-1), area.mean(-1)
    args = baro.Args(z=z, th=th, area=area)
    out = U.static_stability(z, area if r.random() < 0.6 else am, th if r.random() < 0.6 else zm, **kw)
    want = []
    for sl in (slice(n - n_et, n), slice(0, s_et)):
        want.append((zm[:, sl] * am[sl]).sum(1) / am[sl].sum())
    slope = []
    for t in want:
        q = np.empty(kmax)
        q[1:-1] = (t[2:] - t[:-2]) / (z[2:] - z[:-2])
        q[0] = (t[1] - t[0]) / (z[1] - z[0])
        q[-1] = (t[-1] - t[-2]) / (z[-1] - z[-2])
        slope.append(q)
    for got, w, name in zip(out, want + slope, ["mean-north", "mean-south", "stability-north", "stability-south"]):
        mon.close(got, w, name, atol=1e-11 * (400.0 if "mean" in name else 400.0 / np.diff(z).min()))
    if lin and s_et <= (y < 0).sum() and n_et <= (y >= 0).sum():
        mon.close(out[2], np.full(kmax, gn), "stability-linear", rtol=1e-8)
        mon.close(out[3], np.full(kmax, gs), "stability-linear", rtol=1e-8)
    args.check(mon)

    # QGPV from absolute vorticity
    om, H = float(r.choice([7.29e-5, 4e-5])), float(r.choice([7000.0, 6000.0]))
    av = r.normal(size=(kmax, n, m)) * 1e-5 + 2 * om * np.sin(np.deg2rad(y))[None, :, None]
    tn, ts = want[0], want[1]
    sn, ss = r.uniform(2e-3, 6e-3, (2, kmax))
    kw = {}
    ns = n // 2
    if r.random() < 0.5:
        ns = kw["nlat_s"] = int(r.integers(1, n))
    if H != 7000.0 or r.random() < 0.5:
        kw["scale_height"] = H
    args = baro.Args(z=z, y=y, av=av, th=th, tn=tn, ts=ts, sn=sn, ss=ss)
    poison(r, (kmax, n, m))
    qg, dz = U.compute_qgpv_givenvort(om, n, m, kmax, z, y, av, th, tn, ts, sn, ss, **kw)
    zd = np.zeros((kmax, n, m))
    e = np.exp(-z / H)[:, None, None]
    rows = np.arange(n)
    south = rows < ns
    north = rows >= n - ns
    zd[:, south] = (e * (th - ts[:, None, None]) / ss[:, None, None])[:, south]
    zd[:, north] = (e * (th - tn[:, None, None]) / sn[:, None, None])[:, north]
    wz = np.empty((kmax, n, m))
    wz[1:-1] = (zd[2:] - zd[:-2]) / (z[2:] - z[:-2])[:, None, None]
    wz[0] = (zd[1] - zd[0]) / (z[1] - z[0])
    wz[-1] = (zd[-1] - zd[-2]) / (z[-1] - z[-2])
    wz = wz / e
    inside = south | north
    mon.count("qgpv:gap", not inside.all())
    sc = 1e-11 * np.abs(zd).max() / np.diff(z).min() * np.exp(z / H).max()
    mon.close(dz[:, inside], wz[:, inside], "stretching", atol=sc)
    mon.close(qg[:, inside], (av + 2 * om * np.sin(np.deg2rad(y))[None, :, None] * wz)[:, inside], "qgpv",
              atol=sc * 2 * om + 1e-16)
    if not inside.all():
        # between the domains there is nothing to stretch: whatever is returned depends on the input alone
        mon.ok(np.isfinite(dz).all() and np.isfinite(qg).all(), "qgpv-finite")
        mon.close(qg[:, ~inside] , (av + 2 * om * np.sin(np.deg2rad(y))[None, :, None] * dz)[:, ~inside], "qgpv", atol=1e-16)
        poison(r, (kmax, n, m))
        mon.equal(U.compute_qgpv_givenvort(om, n, m, kmax, z, y, av, th, tn, ts, sn, ss, **kw)[1], dz, "qgpv-repeatable")
    args.check(mon)

    # f e^{z/H} d/dz [e^{-z/H} g / stability], on an odd grid with the mean stability at the equator
    eq = int(r.integers(2, 15))
    ny, dzz = 2 * eq - 1, float(r.choice([500.0, 1000.0]))
    zz = np.arange(kmax) * dzz
    gf = r.normal(size=(kmax, ny, m)) * s
    if whole:
        gf = np.rint(gf).astype(it)
    mult = 2 * om * np.sin(np.deg2rad(np.linspace(-90, 90, ny)))[None, :] * np.exp(zz / H)[:, None]
    dec = np.exp(-zz / H)
    args = baro.Args(sn=sn, ss=ss, dec=dec, gf=gf, mult=mult)
    got = U.z_derivative_of_prod(sn, ss, kmax, eq, dzz, dec, gf, mult)
    st = np.empty((kmax, ny))
    st[:, :eq - 1] = ss[:, None]
    st[:, eq - 1] = 0.5 * (ss + sn)
    st[:, eq:] = sn[:, None]
    p = dec[:, None, None] * gf / st[:, :, None]
    w = np.empty_like(p)
    w[1:-1] = (p[2:] - p[:-2]) / (2 * dzz)
    w[0] = (p[1] - p[0]) / dzz
    w[-1] = (p[-1] - p[-2]) / dzz
    mon.close(got, w * mult[:, :, None], "vertical-derivative", atol=1e-12 * np.abs(p).max() / dzz * np.abs(mult).max())
    args.check(mon)
