"""Barotropic (latitude x longitude) workloads and the definitions of equivalent latitude and local wave activity."""
import numpy as np

from vf import gen

FLAVORS = ["planetary", "real", "noise", "zonal", "constant", "plateaus", "integers", "polar", "banded", "spike"]


def gaussian_lat(n):
    x, _ = np.polynomial.legendre.leggauss(n)
    return np.rad2deg(np.arcsin(x))


def grid(r, lo=5, hi=60, symmetric=False):
    """Latitudes (degrees, ascending) and longitudes."""
    n = int(r.integers(lo, hi + 1))
    kind = str(r.choice(["poles", "poles", "cells", "gauss"] if symmetric else
                        ["poles", "poles", "cells", "gauss", "band", "uneven"]))
    if kind == "poles":
        y = np.linspace(-90.0, 90.0, n)
    elif kind == "cells":
        y = -90.0 + 180.0 / n * (np.arange(n) + 0.5)
    elif kind == "gauss":
        y = gaussian_lat(n)
    elif kind == "band":
        a, b = np.sort(r.uniform(-90.0, 90.0, 2))
        y = np.linspace(a, max(b, a + 5.0), n)
    else:
        y = np.cumsum(r.uniform(0.3, 1.7, n))
        y = -89.5 + 179.0 * (y - y[0]) / (y[-1] - y[0])
    m = int(r.integers(3, 41))
    return kind, y, np.arange(m) * 360.0 / m


def areas(r, y, nlon, a):
    """Cell areas (nlat, nlon); kind names how they were made."""
    n = y.size
    kind = str(r.choice(["cosine", "bands", "unit", "normalised", "longitudes"]))
    if kind == "unit":
        # what a caller gets who weighs by cos(lat) and makes the weights add up to the sphere
        w = np.cos(np.deg2rad(y))[:, None] * np.ones((n, nlon))
        w = np.abs(w) / np.abs(w).sum() * 4.0 * np.pi * a ** 2
    elif kind == "bands":
        e = np.concatenate([[-90.0], 0.5 * (y[1:] + y[:-1]), [90.0]])
        s = np.sin(np.deg2rad(e))
        w = (2 * np.pi * a ** 2 / nlon * np.diff(s))[:, None] * np.ones((n, nlon))
    elif kind == "longitudes":
        e = np.concatenate([[-90.0], 0.5 * (y[1:] + y[:-1]), [90.0]])
        p = r.uniform(0.3, 1.7, nlon)
        w = np.diff(np.sin(np.deg2rad(e)))[:, None] * p / p.sum() * 2 * np.pi * a ** 2
    elif kind == "normalised":
        w = np.abs(np.cos(np.deg2rad(y)))[:, None] * r.uniform(0.5, 1.5, (n, nlon))
        w = w / w.sum() * 4.0 * np.pi * a ** 2
    else:
        w = 2.0 * np.pi * a ** 2 * np.abs(np.cos(np.deg2rad(y)))[:, None] * (np.pi / (n - 1)) / nlon * np.ones((n, nlon))
        if w.sum() > 4 * np.pi * a ** 2:
            w *= 4 * np.pi * a ** 2 / w.sum() * (1 - 1e-9)
    return kind, w


def field(r, y, x, flavor=None):
    n, m = y.size, x.size
    flavor = flavor or str(r.choice(FLAVORS))
    f = 2 * 7.29e-5 * np.sin(np.deg2rad(y))[:, None]
    lon = np.deg2rad(x)[None, :]
    wave = sum(r.normal() * np.cos(k * lon + r.uniform(0, 6.3)) * np.exp(-((y[:, None] - r.uniform(-70, 70)) / 18) ** 2)
               for k in range(1, 6))
    if flavor == "planetary":
        q = f + 3e-5 * r.uniform(0, 2) * wave + 3e-6 * r.normal(size=(n, m))
    elif flavor == "real":      # absolute vorticity of an analysed winter day
        u, v, _ = (c[0] for c in gen.real_state(r, np.array([r.uniform(5.0, 1000.0)]), y, x, 7000.0, 287.0 / 1004.0))
        c = np.cos(np.deg2rad(y))[:, None]
        q = f + ((np.roll(v, -1, 1) - np.roll(v, 1, 1)) * m / (4 * np.pi)
                 - np.gradient(u * c, np.deg2rad(y), axis=0)) / (6.378e6 * np.maximum(c, 0.02))
    elif flavor == "noise":
        q = r.normal(size=(n, m)) * 1e-5
    elif flavor == "zonal":
        q = f + 0 * lon
        if r.random() < 0.4:
            q = q + (r.normal(size=n) * 1e-5)[:, None]
    elif flavor == "constant":
        q = np.full((n, m), float(r.choice([0.0, 3e-5, -2.5])))
    elif flavor == "plateaus":
        q = np.round((f + 4e-5 * wave) / 3e-5) * 3e-5
    elif flavor == "integers":
        q = r.integers(-9, 10, (n, m))
        return flavor, q
    elif flavor == "polar":
        q = f + 1e-6 * r.normal(size=(n, m))
        q[-1] = q.max() * 1.3
        q[0] = q.min() * 1.2
    elif flavor == "banded":
        q = np.where((np.floor(y / 17.0) % 2)[:, None] > 0, 1e-4, -1e-4) + 1e-6 * r.normal(size=(n, m))
    else:
        q = f + 0 * lon
        q[int(r.integers(0, n)), int(r.integers(0, m))] += 8e-4 * r.choice([-1, 1])
    s = float(r.choice([1.0, 1.0, 1.0, 1e-9, 1e6, 1e5]))
    return flavor, q * s


def layout(r, a):
    """The same values in another memory layout or as a view."""
    k = r.random()
    if k < 0.6:
        return a
    if k < 0.75:
        return np.asfortranarray(a)
    if k < 0.9:
        big = np.zeros(tuple(2 * n for n in a.shape), a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    return a[::-1].copy()[::-1]


class Args:
    """Keeps copies of arrays handed to the library, to see whether it changes them."""

    def __init__(self, **kw):
        self.kw = kw
        self.before = {k: np.array(v, copy=True) for k, v in kw.items() if isinstance(v, np.ndarray)}

    def check(self, mon, mech="inputs-untouched"):
        for k, b in self.before.items():
            mon.equal(self.kw[k], b, mech, name=k)


class Rearrangement:
    """The contours v_k of a field, the area where it is smaller, and the equivalent latitudes those areas reach."""
    EPS = 3e-12

    def __init__(self, vort, area, n_points, a):
        v = np.asarray(vort, dtype=float).ravel()
        w = np.asarray(area, dtype=float).ravel()
        self.b = np.linspace(v.min(), v.max(), n_points)
        rng = v.max() - v.min()
        d = 1e-11 * rng + 4e-16 * np.abs(v).max()
        if rng == 0:
            d = 0.0
        o = np.argsort(v, kind="stable")
        vs = v[o]
        cum = np.concatenate([[0.0], np.cumsum(w[o])])
        # np.linspace starts and ends on the extremes exactly
        lo_v = np.where(np.arange(n_points) % max(n_points - 1, 1) == 0, self.b, self.b - d)
        hi_v = np.where(np.arange(n_points) % max(n_points - 1, 1) == 0, self.b, self.b + d)
        self.i_lo = np.searchsorted(vs, lo_v, "left")
        self.i_hi = np.searchsorted(vs, hi_v, "left")
        if n_points == 1:
            self.i_lo[:] = self.i_hi[:] = 0
        self.tied = bool((self.i_lo != self.i_hi).any())
        s = 2.0 * np.pi * a ** 2
        self.A = cum[self.i_lo]
        self.C = np.concatenate([[0.0], np.cumsum((w * v)[o])])[self.i_lo]
        self.cscale = np.abs(w * v).sum()
        self.lo = self.lat(cum[self.i_lo] / s - 1.0 - self.EPS)
        self.hi = self.lat(cum[self.i_hi] / s - 1.0 + self.EPS)
        self.at = self.lat(self.A / s - 1.0)
        self.beyond = bool((cum[self.i_hi] / s - 1.0 > 1.0 + 1e-9).any())
        self.range = rng
        self.vs, self.w, self.o, self.v = vs, w, o, v

    @staticmethod
    def lat(mu):
        return np.rad2deg(np.arcsin(np.clip(mu, -1.0, 1.0)))

    E = 1e-8

    def bounds(self, y):
        """Smallest and largest admissible Q(y)."""
        return np.interp(y - self.E, self.hi, self.b), np.interp(y + self.E, self.lo, self.b)

    def spread(self, y, values):
        """Range over [y-E, y+E] of the piecewise linear function with these values at the equivalent latitudes."""
        lo = np.empty(y.size)
        hi = np.empty(y.size)
        for i, yy in enumerate(y):
            c = [np.interp(t, x, values) for t in (yy - self.E, yy, yy + self.E) for x in (self.lo, self.at, self.hi)]
            near = values[(self.lo <= yy + 2 * self.E) & (self.hi >= yy - 2 * self.E)]
            c = np.concatenate([c, near])
            lo[i], hi[i] = c.min(), c.max()
        return lo, hi

    def bin_means(self, g):
        """Area mean of g where b[k-1] <= q < b[k] (0 where there is none and for k=0); None if a value sits on an edge."""
        g = np.asarray(g, dtype=float).ravel()[self.o]
        w = self.w[self.o]
        dp = np.zeros(self.b.size)
        for k in range(1, self.b.size):
            sl = slice(self.i_lo[k - 1], self.i_lo[k])
            s = w[sl].sum()
            if s != 0:
                dp[k] = (w[sl] * g[sl]).sum() / s
        return dp


def check_q(mon, q, y, vort, area, n_points, a, mech, **detail):
    R = Rearrangement(vort, area, n_points, a)
    if R.beyond:
        mon.count("areas-beyond-sphere")
        return R
    lo, hi = R.bounds(y)
    tol = 1e-10 * R.range + 1e-14 * np.abs(R.b).max() + 1e-300
    mon.within(q, lo, hi, mech, tol=tol, n_points=n_points, **detail)
    mon.within(np.diff(q), 0.0, np.inf, mech + "-monotone", tol=tol)
    mon.within(q, R.b[0], R.b[-1], mech + "-range", tol=tol)
    return R


def lwa(vort, q, dmu, force=None):
    """Cyclonic + anticyclonic parts (2, nlat, nlon), and the same integral of a forcing; definition, row by row."""
    v = np.asarray(vort, dtype=float)
    n, m = v.shape
    out = np.zeros((2, n, m))
    sig = np.zeros((n, m))
    ambiguous = np.zeros((n, m))
    rows = np.arange(n)[:, None]
    w = np.asarray(dmu, dtype=float)[:, None]
    for j in range(n - 1):
        d = v - q[j]
        south = (rows > j) & (d < 0)        # displaced poleward across the reference latitude
        north = (rows <= j) & (d > 0)
        out[0, j] = -(d * w * south).sum(0)
        out[1, j] = (d * w * north).sum(0)
        if force is not None:
            sig[j] = (force * w * north).sum(0) - (force * w * south).sum(0)
            near = np.abs(d) <= 1e-12 * np.abs(q[j])
            ambiguous[j] = (np.abs(force) * w * near).sum(0)
    return out, sig, ambiguous


def check_lwa(mon, got, vort, q, dmu, mech, partitioned=False, force=None, got_force=None, exact_q=True):
    want, sig, amb = lwa(vort, q, dmu, force)
    scale = (np.abs(np.asarray(vort, dtype=float)).max() + np.abs(q).max()) * np.abs(dmu).sum()
    if not partitioned:
        want = want.sum(0)
    mon.close(got, want, mech, atol=1e-12 * scale + 1e-300)
    if force is not None:
        fs = np.abs(force).max() * np.abs(dmu).sum()
        mon.close(got_force, sig, mech + "-forcing", atol=amb * (1 if exact_q is False else 0) + 1e-12 * fs + 1e-300)
    return want
