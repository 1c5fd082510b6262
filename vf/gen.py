"""Workload generation: grids, constants and three-dimensional atmospheric states."""
import os

import numpy as np

FLAVORS = ["jet", "noise", "zonal", "rough", "gentle", "blocked", "real"]
_real = {}


def real_atmosphere():
    """u, v and potential temperature of 23 January 2005 (every other longitude of the test suite's data)."""
    if not _real:
        with np.load(os.path.join(os.path.dirname(os.path.abspath(__file__)), "real.npz")) as f:
            _real["logp"] = np.log(f["plev"] / 1000.0)
            for n in "uvt":
                scale, off = f[n + "_scale"]
                _real[n] = np.cumsum(f[n].astype("i2"), axis=-1, dtype="i2") * scale + off
        _real["t"] = _real["t"] * np.exp(-287.0 / 1004.0 * _real["logp"])[:, None, None]
    return _real


def real_state(r, plev, ylat, xlon, H, kappa):
    """That atmosphere brought to any grid, turned about the axis, sometimes with the hemispheres exchanged."""
    f = real_atmosphere()
    shift, mirror, eddies = r.uniform(0, 360), r.random() < 0.5, r.uniform(0.6, 1.1)

    def place(x0, x):
        i = np.clip(np.searchsorted(x0, x, side="right") - 1, 0, len(x0) - 2)
        w = np.clip((x - x0[i]) / (x0[i + 1] - x0[i]), 0.0, 1.0)
        return i, i + 1, w

    out = []
    for n in "uvt":
        a = f[n]
        if mirror:
            a = a[:, ::-1] * (-1.0 if n == "v" else 1.0)
        a = a.mean(-1, keepdims=True) + eddies * (a - a.mean(-1, keepdims=True))
        k0, k1, w = place(-f["logp"], -np.log(plev / 1000.0))
        a = a[k0] * (1 - w)[:, None, None] + a[k1] * w[:, None, None]
        k0, k1, w = place(np.linspace(-90.0, 90.0, 121), np.asarray(ylat, float))
        a = a[:, k0] * (1 - w)[:, None] + a[:, k1] * w[:, None]
        x = (np.asarray(xlon, float) + shift) % 360.0 / 3.0
        k0 = np.floor(x).astype(int) % 120
        w = x - np.floor(x)
        out.append(a[:, :, k0] * (1 - w) + a[:, :, (k0 + 1) % 120] * w)
    out[2] = out[2] * np.exp(kappa * np.log(plev / 1000.0))[:, None, None]
    return tuple(np.ascontiguousarray(a) for a in out)


def rng_of(*key):
    return np.random.default_rng(np.random.SeedSequence([int(k) & 0xFFFFFFFF for k in key]))


def make_latlon(r, parity="odd", lo=19, hi=37, nlon=None):
    n = int(r.integers(lo, hi + 1))
    if parity == "odd":
        n |= 1
        ylat = np.linspace(-90.0, 90.0, n)
        ylat[n // 2] = 0.0
    elif parity == "even":            # even-sized grid, poles included, no equator
        n += n % 2
        ylat = np.linspace(-90.0, 90.0, n)
    elif parity == "offset":          # even-sized grid, cell centres
        n += n % 2
        d = 180.0 / n
        ylat = -90.0 + d * (np.arange(n) + 0.5)
    else:
        raise ValueError(parity)
    if nlon is None:
        nlon = int(r.integers(8, 33))
    xlon = np.arange(nlon) * 360.0 / nlon
    return xlon, ylat


def make_consts(r, vary=True):
    if not vary:
        return {}
    c = {}
    if r.random() < 0.7:
        c["scale_height"] = float(r.choice([6500.0, 7000.0, 7500.0, 8200.0]))
    if r.random() < 0.6:
        c["planet_radius"] = float(r.choice([6.378e6, 3.39e6, 5.0e6, 7.1e6]))
    if r.random() < 0.6:
        c["omega"] = float(r.choice([7.29e-5, 5.0e-5, 9.0e-5]))
    if r.random() < 0.6:
        c["cp"] = float(r.choice([1004.0, 900.0, 1100.0]))
    if r.random() < 0.6:
        c["dry_gas_constant"] = float(r.choice([287.0, 250.0, 320.0]))
    return c


def make_plev(r, hmax, H, nlev=None, p0=1000.0, even=False):
    if nlev is None:
        nlev = int(r.integers(9, 20))
    if even:
        z = np.linspace(0.0, hmax, nlev)
    else:
        w = r.uniform(0.4, 1.6, nlev - 1)
        z = np.concatenate([[0.0], np.cumsum(w) / w.sum()]) * hmax
        z = z + r.choice([0.0, 0.0, 120.0, -150.0])
        z[-1] = max(z[-1], hmax * 1.0005)
    return p0 * np.exp(-z / H)


def state(r, plev, ylat, xlon, H, kappa, flavor="jet", R=287.0, a=6.378e6, om=7.29e-5):
    """u, v, T on (plev, ylat, xlon); velocities respect the planet's scales loosely."""
    if flavor == "real":
        return real_state(r, plev, ylat, xlon, H, kappa)
    z = -H * np.log(plev / 1000.0)
    lam = np.deg2rad(xlon)[None, None, :]
    phi = np.deg2rad(ylat)[None, :, None]
    zz = z[:, None, None]
    zn = zz / max(z.max(), 1.0)
    cph, sph = np.cos(phi), np.sin(phi)
    s = {"jet": 1.0, "noise": 1.0, "zonal": 1.0, "rough": 1.6, "gentle": 0.35, "blocked": 1.2}[flavor]
    asym = r.uniform(0.7, 1.3)
    hem = 1.0 + (asym - 1.0) * sph
    u = hem * (s * 28.0 * np.sin(2 * phi) ** 2 * (0.35 + 0.65 * np.sin(np.pi * np.clip(zn, 0, 1) * 0.8))
               - 4.0 * cph ** 6)
    theta = (288.0 + r.uniform(3.2e-3, 4.6e-3) * zz + 6e-8 * zz ** 2
             - hem * s * 26.0 * sph ** 2 * np.exp(-zz / 12000.0))
    v = np.zeros(np.broadcast_shapes(zz.shape, phi.shape, lam.shape))
    u = u + v
    theta = theta + v
    if flavor != "zonal":
        amp_u = {"jet": 8.0, "noise": 6.0, "rough": 14.0, "gentle": 1.5, "blocked": 10.0}[flavor]
        for _ in range(int(r.integers(2, 5))):
            m = int(r.integers(1, 6))
            lat0 = np.deg2rad(r.uniform(25, 65)) * r.choice([-1, 1])
            wid = np.deg2rad(r.uniform(10, 25))
            env = np.exp(-((phi - lat0) / wid) ** 2) * cph
            ph = r.uniform(0, 2 * np.pi) + r.uniform(-1, 1) * zn * 2
            u = u + amp_u * env * np.cos(m * lam + ph) * (0.4 + zn)
            v = v + amp_u * env * np.sin(m * lam + ph + r.uniform(-.4, .4)) * (0.4 + zn)
            theta = theta + 0.5 * amp_u * env * np.cos(m * lam + ph + 0.7) * np.exp(-zz / 15000.0)
        if flavor == "blocked":
            lon0 = r.uniform(0, 2 * np.pi)
            lat0 = np.deg2rad(r.choice([55.0, -50.0]))
            g = np.exp(-((phi - lat0) / 0.2) ** 2 - (np.sin((lam - lon0) / 2) / 0.25) ** 2)
            u = u - 25.0 * g * (phi - lat0) / 0.2
            theta = theta + 9.0 * g
        if flavor in ("noise", "rough"):
            n = 2.0 if flavor == "noise" else 5.0
            u = u + n * r.standard_normal(u.shape)
            v = v + n * r.standard_normal(v.shape)
            theta = theta + 0.4 * n * r.standard_normal(u.shape)
    T = theta * np.exp(-kappa * zz / H)
    return np.ascontiguousarray(u), np.ascontiguousarray(v), np.ascontiguousarray(T)


def qg_case(seed, flavor="jet", parity="odd", vary=True, on_grid=False, lo=19, hi=37,
            kmax=None, nlon=None, dz=None):
    """Everything a QGField constructor needs, as a dict."""
    r = rng_of(seed, 77)
    xlon, ylat = make_latlon(r, parity, lo, hi, nlon)
    c = make_consts(r, vary)
    H = c.get("scale_height", 7000.0)
    R = c.get("dry_gas_constant", 287.0)
    cp = c.get("cp", 1004.0)
    kmax = int(r.integers(7, 16)) if kmax is None else kmax
    given, dz = dz, float(r.choice([800.0, 1000.0, 1500.0, 2000.0, 1234.5]))
    while (kmax - 1) * dz > 30000:
        dz /= 2
    dz = dz if given is None else given
    if on_grid:
        z = np.arange(kmax) * dz
        plev = 1000.0 * np.exp(-z / H)
        nlev = kmax
    else:
        plev = make_plev(r, (kmax - 1) * dz * r.uniform(1.001, 1.3), H)
    u, v, t = state(r, plev, ylat, xlon, H, R / cp, flavor, R)
    kw = dict(c)
    if on_grid:
        kw["data_on_evenly_spaced_pseudoheight_grid"] = True
    else:
        kw["kmax"] = kmax
        kw["dz"] = dz
    return dict(xlon=xlon, ylat=ylat, plev=plev, u=u, v=v, t=t, kw=kw,
                kmax=kmax, dz=dz, H=H, R=R, cp=cp,
                a=c.get("planet_radius", 6.378e6), om=c.get("omega", 7.29e-5))


def build(cls, d, **extra):
    kw = dict(d["kw"])
    kw.update(extra)
    return cls(d["xlon"], d["ylat"], d["plev"], d["u"], d["v"], d["t"], **kw)
