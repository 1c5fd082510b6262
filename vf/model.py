"""Independent float64 reference models, written from the definitions.

Arrays are in (height, lat, lon) order, latitude ascending.  Nothing here imports falwa.
"""
import numpy as np
from scipy.interpolate import UnivariateSpline


# ---------------------------------------------------------------- vertical ---
def lin_interp(x, y, xi, axis=0):
    """Piecewise-linear interpolation with linear extrapolation, x ascending."""
    x = np.asarray(x, float)
    y = np.moveaxis(np.asarray(y, float), axis, 0)
    xi = np.asarray(xi, float)
    i = np.clip(np.searchsorted(x, xi, side="right") - 1, 0, x.size - 2)
    w = ((xi - x[i]) / (x[i + 1] - x[i])).reshape((-1,) + (1,) * (y.ndim - 1))
    return np.moveaxis(y[i] * (1 - w) + y[i + 1] * w, 0, axis)


def pseudoheight(plev, H):
    return -H * np.log(np.asarray(plev, float) / 1000.0)


def theta_of(t, plev, H, R, cp):
    z = pseudoheight(plev, H)
    return np.asarray(t, float) * np.exp(R / cp * z / H)[:, None, None]


def hemispheric_means(theta, ylat, nrows):
    """Area-weighted mean over the nrows southernmost / northernmost rows."""
    w = np.abs(np.cos(np.deg2rad(ylat)))
    zm = theta.mean(axis=-1)
    s = (zm[:, :nrows] * w[:nrows]).sum(-1) / w[:nrows].sum()
    n = (zm[:, -nrows:] * w[-nrows:]).sum(-1) / w[-nrows:].sum()
    return s, n


def stability(plev, theta, ylat, H, heights, nrows):
    """(t0_s, t0_n, stat_s, stat_n) at `heights`."""
    z = pseudoheight(plev, H)
    s, n = hemispheric_means(theta, ylat, nrows)
    fs, fn = UnivariateSpline(z, s), UnivariateSpline(z, n)
    return fs(heights), fn(heights), fs.derivative()(heights), fn.derivative()(heights)


def f32(x):
    return np.asarray(x, dtype=np.float32).astype(np.float64)


# -------------------------------------------------------------------- qgpv ---
def avort(u, v, nlat, nlon, a, om):
    """Absolute vorticity on the sphere; pole rows hold the adjacent row's zonal mean."""
    phi = -0.5 * np.pi + np.pi * np.arange(nlat) / (nlat - 1)
    dphi = np.pi / (nlat - 1)
    dlam = 2 * np.pi / nlon
    c = np.cos(phi)[None, :, None]
    f = 2 * om * np.sin(phi)[None, :, None]
    vx = (np.roll(v, -1, axis=2) - np.roll(v, 1, axis=2)) / (2 * dlam)
    out = np.zeros_like(u)
    uc = u * c
    out[:, 1:-1] = f[:, 1:-1] + (vx[:, 1:-1] - (uc[:, 2:] - uc[:, :-2]) / (2 * dphi)) / (a * c[:, 1:-1])
    out[:, 0] = out[:, 1].mean(-1, keepdims=True)
    out[:, -1] = out[:, -2].mean(-1, keepdims=True)
    return out


def qgpv(u, v, th, height, H, a, om, t0, stat, coef="zmav"):
    """t0, stat: (kmax, nlat).  coef 'zmav': zonal-mean absolute vorticity multiplies the
    stretching term; 'f': the Coriolis parameter does."""
    k, nlat, nlon = u.shape
    av = avort(u, v, nlat, nlon, a, om)
    phi = -0.5 * np.pi + np.pi * np.arange(nlat) / (nlat - 1)
    g = np.exp(-height / H)[:, None, None] * (th - t0[:, :, None]) / stat[:, :, None]
    fac = av.mean(-1) if coef == "zmav" else np.broadcast_to(2 * om * np.sin(phi), (k, nlat))
    pv = np.zeros_like(u)
    dzz = (height[2:] - height[:-2])[:, None, None]
    st = np.exp(height[1:-1] / H)[:, None, None] * (g[2:] - g[:-2]) / dzz
    pv[1:-1] = av[1:-1] + st * fac[1:-1, :, None]
    # what a single-precision evaluation loses at each (level, row)
    c = np.maximum(np.cos(phi), 0.5 * np.sin(np.pi / (nlat - 1)))[None, :]
    um = np.abs(u).max(-1) * np.cos(phi)[None, :]
    um = um + np.roll(um, 1, axis=1) + np.roll(um, -1, axis=1)
    vm = np.abs(v).max(-1)
    A = (um * (nlat - 1) / np.pi + vm * nlon / np.pi) / (a * c) + 2 * om
    A[:, 0] = A[:, 1]
    A[:, -1] = A[:, -2]
    G = np.exp(-height / H)[:, None] * (np.abs(th).max(-1) + np.abs(t0)) / np.abs(stat)
    S = np.zeros_like(A)
    fm = np.abs(fac) + 0.2 * om + (A if coef != "f" else 0.0)
    S[1:-1] = np.exp(height[1:-1] / H)[:, None] * (G[2:] + G[:-2]) / dzz[:, :, 0] * fm[1:-1]
    scale = (A + S)[:, :, None]
    return pv, av, scale


# -------------------------------------------------- equal-area rearrangement --
class AreaAnalysis:
    """Rearrangement of a global field q[lat, lon] into a zonally symmetric one.

    Partition [qmin, qmax] in n-1 intervals of width dq below qmax; A(m) is the area of the
    field's values binned in intervals 2..m (the interval that starts at qmax is not
    counted), C(m) its circulation.  Values that a float32 evaluation may put on either
    side of an interval edge yield a lower and an upper curve.
    """

    def __init__(self, q, npart, a, dphi, dlam, rel=2e-6):
        nlat, nlon = q.shape
        q = q.astype(np.float64)
        phi = -0.5 * np.pi + dphi * np.arange(nlat)
        da = a * a * dphi * dlam * np.cos(phi)[:, None] * np.ones((1, nlon))
        self.qmax, self.qmin = q.max(), q.min()
        self.dq = (self.qmax - self.qmin) / (npart - 1)
        self.qn = self.qmax - self.dq * np.arange(npart)
        x = (self.qmax - q) / self.dq
        eps = rel * npart
        lo = np.clip(np.floor(x + eps).astype(int), 0, npart - 1)   # may fall in the later bin
        hi = np.clip(np.floor(x - eps).astype(int), 0, npart - 1)   # may fall in the earlier bin
        self.n_edge = int((lo != hi).sum())
        # leaving a value out (first bin) makes the cumulative area smaller, not larger, so the
        # two kinds of doubtful values are varied separately
        first = (hi == 0) & (lo == 1)
        self.curves = []
        edge = (lo != hi) & ~first
        self.edge_area = np.bincount(lo[edge], da[edge], minlength=npart + 2)
        for f in ((0, 1) if first.any() else (0,)):
            for rest in ((lo, hi) if (lo != hi)[~first].any() else (lo,)):
                self.curves.append(self._cum(np.where(first, f, rest), da, q, npart))
        # which values sit in the first bin matters too (they are left out)
        self.total = 4 * np.pi * a * a
        self.npart = npart

    @staticmethod
    def _cum(ind, da, q, npart):
        an = np.bincount(ind.ravel(), da.ravel(), minlength=npart)
        cn = np.bincount(ind.ravel(), (da * q).ravel(), minlength=npart)
        an[0] = 0.0
        cn[0] = 0.0
        return np.cumsum(an), np.cumsum(cn)

    def _at(self, A, Y, target):
        """Y interpolated linearly at the first/last place where A crosses target."""
        A = np.maximum.accumulate(A)
        m = np.searchsorted(A, target, side="right") - 1
        if m >= A.size - 1:
            return Y[-1]
        m = max(m, 0)
        d = (target - A[m]) / (A[m + 1] - A[m])
        return Y[m] * (1 - d) + Y[m + 1] * d

    def q_interval(self, area, slack):
        v = [self._at(A, self.qn, t) for A, _ in self.curves
             for t in (area - slack, area, area + slack)]
        return min(v), max(v)

    def c_interval(self, area, slack):
        v, ext = [], 0.0
        for A, C in self.curves:
            for t in (area - slack, area, area + slack):
                v.append(self._at(A, C, t))
            # doubtful values on the edges next to the crossing, in any combination
            m = max(int(np.searchsorted(np.maximum.accumulate(A), area, side="right")) - 1, 0)
            ext = max(ext, self.edge_area[max(m - 1, 0):m + 3].sum() * self.dq)
        return min(v) - ext, max(v) + ext


def cap_area(phi, a):
    return 2 * np.pi * a * a * (1 - np.sin(phi))


# --------------------------------------------------------------------- LWA ---
def lwa_and_fluxes(pv, u, v, th, ncf, qref, uref, ptref, t0, dphi, a, om, dz, H, R, cp, jb):
    """Northern-hemisphere layerwise terms from the definitions.

    pv,u,v,th,ncf: (k, nd, nlon) rows equator..pole ; qref: (k, nd) ; uref, ptref: (k, nd)
    (rows below jb unused).  Returns a dict of (k, nd, nlon) arrays and the sensitivity of
    the LWA integrals to where the contour is drawn (`edge`).
    """
    k, nd, nlon = pv.shape
    phi = dphi * np.arange(nd)
    c, s = np.cos(phi), np.sin(phi)
    z = dz * np.arange(k)
    out = {n: np.zeros((k, nd, nlon)) for n in
           ("a1", "a2", "ncf", "ua1", "ua2", "ep1", "ep2", "ep3", "ep1_tol")}
    out["ep4"] = np.zeros((nd, nlon))
    for j in range(jb, nd - 1):
        qe = pv - qref[:, j][:, None, None]
        north = np.arange(nd) >= j
        neg = (qe <= 0) & north[None, :, None]
        pos = (qe > 0) & ~north[None, :, None]
        w = (a * dphi * c)[None, :, None]
        out["a2"][:, j] = np.where(neg, -qe * w, 0).sum(1)
        out["a1"][:, j] = np.where(pos, qe * w, 0).sum(1)
        out["ncf"][:, j] = np.where(neg, -ncf * w, 0).sum(1) + np.where(pos, ncf * w, 0).sum(1)
        ue = u * c[j] - uref[:, j][:, None, None] * c[None, :, None]
        out["ua2"][:, j] = (np.where(neg, -qe * ue, 0) + np.where(pos, qe * ue, 0)).sum(1) * a * dphi
        out["ua1"][:, j] = uref[:, j][:, None] * (out["a1"][:, j] + out["a2"][:, j])
        dth = np.ones(k)
        dth[1:-1] = (t0[2:] - t0[:-2]) / (2 * dz)
        pe = 0.5 * (th[:, j] - ptref[:, j][:, None]) ** 2 * (R / H * np.exp(-R / cp * z / H) / dth)[:, None]
        # single precision: theta and its means are known to some 1e-4 K
        coef = np.abs(R / H * np.exp(-R / cp * z / H) / dth)[:, None]
        out["ep1_tol"][:, j] = (np.abs(pe) * (5e-6 + 5e-5 / np.abs(dth * 2 * dz)[:, None])
                                + coef * np.abs(th[:, j] - ptref[:, j][:, None]) * 4e-5)
        out["ep1"][:, j] = c[j] * (0.5 * v[:, j] ** 2 - 0.5 * (u[:, j] - uref[:, j][:, None]) ** 2 - pe)
        out["ep2"][:, j] = (u[:, j + 1] - uref[:, j + 1][:, None]) * v[:, j + 1] * c[j + 1] ** 2
        if j > jb:
            out["ep3"][:, j] = (u[:, j - 1] - uref[:, j - 1][:, None]) * v[:, j - 1] * c[j - 1] ** 2
        else:
            out["ep3"][:, j] = (u[:, j] - uref[:, j][:, None]) * v[:, j] * c[j] ** 2
        m2 = v[1, j] * (th[1, j] - ptref[1, j]) * np.exp(-dz / H) / (t0[2] - t0[0])
        m1 = 0.5 * v[0, j] * (th[0, j] - ptref[0, j]) / (t0[1] - t0[0])
        out["ep4"][j] = 2 * om * s[j] * c[j] * dz * (m1 + m2)   # to be divided by the prefactor
    for n in ("a1", "a2", "ncf", "ua1", "ua2", "ep1", "ep2", "ep3"):
        out[n][0] = 0
        out[n][-1] = 0
    return out


def prefactor(kmax, dz, H):
    return float(sum(np.exp(-i * dz / H) * dz for i in range(1, kmax - 1)))


def vert_avg(x, dz, H, last=None):
    """Density-weighted average over levels 1..last-1 (axis 0)."""
    k = x.shape[0]
    last = k - 1 if last is None else last
    w = np.exp(-np.arange(1, last) * dz / H) * dz / prefactor(k, dz, H)
    return np.tensordot(w, x[1:last], axes=(0, 0))
