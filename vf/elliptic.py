"""The two reference-state inversions as sparse linear systems in double precision.

Everything is written for one hemisphere: rows run from the equator to the pole.
"""
import numpy as np
import scipy.sparse as sp
import scipy.sparse.linalg as spl


def coefs(nd, k, dphi, dz, a, om, H, R, cp, stat):
    j = np.arange(nd)
    phi0 = j * dphi
    phip = (j + 0.5) * dphi
    phim = (j - 0.5) * dphi
    z = dz * np.arange(k)
    kap = R / cp
    with np.errstate(divide="ignore", invalid="ignore"):
        A = 1 / (np.sin(phip) * np.cos(phip))
        B = 1 / (np.sin(phim) * np.cos(phim))
        fact = 4 * om * om * H * a * a * np.sin(phi0) * dphi ** 2 / (dz * dz * R * np.cos(phi0))
    zp = 0.5 * (z[2:] + z[1:-1])
    zm = 0.5 * (z[:-2] + z[1:-1])
    sp_ = 0.5 * (stat[2:] + stat[1:-1])
    sm_ = 0.5 * (stat[:-2] + stat[1:-1])
    C = np.zeros((nd, k))
    D = np.zeros((nd, k))
    C[:, 1:-1] = fact[:, None] * (np.exp(-zp / H + kap * zp / H) / sp_ * np.exp(z[1:-1] / H))[None, :]
    D[:, 1:-1] = fact[:, None] * (np.exp(-zm / H + kap * zm / H) / sm_ * np.exp(z[1:-1] / H))[None, :]
    return A, B, C, D


def rhs(qref_over_2om_sin, dphi, a, om):
    """F(j,k) for interior rows, qref given as q/(2 Omega sin)."""
    F = np.zeros_like(qref_over_2om_sin)
    q = qref_over_2om_sin
    F[1:-1] = -om * a * dphi * (q[2:] - q[:-2])
    return F


def system(nd, k, A, B, C, D, F, jfirst, u_edge, top):
    """Solve for U(j,k), j = jfirst..nd-2, levels 1..k-2.

    u_edge[k]: value at row jfirst-1; row nd-1 is zero; level 0 is zero; the top level is
    U(top - level offset) plus a known increment: top = (offset, inc[j]).
    Returns U (nd, k) with boundary values filled in.
    """
    js = np.arange(jfirst, nd - 1)
    ks = np.arange(1, k - 1)
    nj, nk = js.size, ks.size
    off, inc = top
    rows, cols, vals = [], [], []
    b = np.zeros(nj * nk)

    def idx(jj, kk):
        return (jj - jfirst) * nk + (kk - 1)

    for jj in js:
        for kk in ks:
            r = idx(jj, kk)
            b[r] += F[jj, kk]
            diag = -(A[jj] + B[jj] + C[jj, kk] + D[jj, kk])
            rows.append(r); cols.append(r); vals.append(diag)
            if jj + 1 < nd - 1:
                rows.append(r); cols.append(idx(jj + 1, kk)); vals.append(A[jj])
            if jj - 1 >= jfirst:
                rows.append(r); cols.append(idx(jj - 1, kk)); vals.append(B[jj])
            else:
                b[r] -= B[jj] * u_edge[kk]
            if kk + 1 <= k - 2:
                rows.append(r); cols.append(idx(jj, kk + 1)); vals.append(C[jj, kk])
            else:
                kb = k - 1 - off
                b[r] -= C[jj, kk] * inc[jj]
                if kb >= 1:
                    rows.append(r); cols.append(idx(jj, kb)); vals.append(C[jj, kk])
            if kk - 1 >= 1:
                rows.append(r); cols.append(idx(jj, kk - 1)); vals.append(D[jj, kk])
    M = sp.csc_matrix((vals, (rows, cols)), shape=(nj * nk, nj * nk))
    x = spl.spsolve(M, b)
    U = np.zeros((nd, k))
    U[jfirst:nd - 1, 1:k - 1] = x.reshape(nj, nk)
    U[jfirst - 1, 1:k - 1] = u_edge[1:k - 1]
    U[jfirst:nd - 1, k - 1] = U[jfirst:nd - 1, k - 1 - off] + inc[jfirst:nd - 1]
    return U, M


def residual(U, nd, k, A, B, C, D, F, jfirst):
    """Residual of the discretised equation at interior points and the sum of |terms|."""
    R = np.zeros((nd, k))
    S = np.zeros((nd, k))
    s = slice(jfirst, nd - 1)
    p = slice(jfirst + 1, nd)
    m = slice(jfirst - 1, nd - 2)
    i, u, d = slice(1, k - 1), slice(2, k), slice(0, k - 2)
    t = [A[s, None] * U[p, i], B[s, None] * U[m, i], C[s, i] * U[s, u], D[s, i] * U[s, d],
         -(A[s, None] + B[s, None] + C[s, i] + D[s, i]) * U[s, i], -F[s, i]]
    R[s, i] = sum(t)
    S[s, i] = sum(np.abs(x) for x in t)
    return R, S


def thermal_wind_theta(u, phi, dphi, dz, a, om, H, R, cp, tmean, w):
    """theta(j,k): leap-frog thermal wind from rows 0 and 1 at zero, then shifted so that the
    area-weighted mean is tmean(k).  u: (n, k) on rows phi; levels 1..k-2, then the two
    outer levels copy their neighbour's shape."""
    n, k = u.shape
    z = dz * np.arange(k)
    kap = R / cp
    t = np.zeros((n, k))
    mag = np.zeros((n, k))
    for j in range(1, n - 1):
        uz = (u[j, 2:] - u[j, :-2]) / (2 * dz)
        ty = -2 * om * np.sin(phi[j]) * uz * a * H * np.exp(kap * z[1:-1] / H) / R
        t[j + 1, 1:-1] = t[j - 1, 1:-1] + 2 * ty * dphi
        mag[j + 1, 1:-1] = mag[j - 1, 1:-1] + np.abs(2 * ty * dphi)
    mean = (w[:, None] * t).sum(0) / w.sum()
    t[:, 1:-1] += (tmean - mean)[None, 1:-1]
    t[:, 0] = t[:, 1] - tmean[1] + tmean[0]
    t[:, -1] = t[:, -2] - tmean[-2] + tmean[-1]
    return t, mag
