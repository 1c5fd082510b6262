"""Comparing two runs of the pipeline that a symmetry relates.

The kernels work in single precision, so two runs that are equal in exact arithmetic
differ by rounding.  Where the rearrangement of a PV field is ill-conditioned (an empty
PV interval: Qref is then any value of a range) the comparison is left out and counted.
"""
import numpy as np

from . import model as M
from . import qg

EPS_Q = 2e-5       # rounding of Qref, relative to the largest |QGPV|

# tolerance as a fraction of the field's natural scale
REL = {"qgpv": 3e-5, "interpolated_u": 3e-7, "interpolated_v": 3e-7, "interpolated_theta": 3e-7,
       "qref": EPS_Q, "uref": 2e-4, "ptref": 3e-6, "stretch_term": 4e-4}
USES_UREF = ("uref", "ptref", "ua1", "adv_flux_f1", "ua2", "adv_flux_f2", "ep1", "adv_flux_f3",
             "flux_vector_lambda_baro", "convergence_zonal_advective_flux", "flux_vector_phi_baro",
             "stretch_term", "meridional_heat_flux", "ep2", "ep3", "divergence_eddy_momentum_flux")


class Context:
    """What the comparison of one pair of runs needs to know about the first of them."""

    def __init__(self, p, d, case, ncf=None):
        self.p, self.nh = p, case["nh"]
        dd = qg.analysis_case(d)
        ex = qg.extra_of(case)
        q = qg.run(case["cls"], dd, "ref", **ex)
        self.d = dd
        self.pv, self.qref = np.array(q.qgpv), np.array(q.qref)
        self.a = a = dd["a"]
        k, nlat, nlon = self.pv.shape
        self.nd = (nlat + 1) // 2
        self.dphi, self.dlam = np.pi / (nlat - 1), 2 * np.pi / nlon
        self.qmax = np.abs(self.pv).max()
        self.umax = max(np.abs(q.interpolated_u).max(), np.abs(q.uref).max(), 1e-30)
        self.lwa = a * self.qmax * 0.5
        self.ncf = 0.0 if ncf is None else np.abs(ncf).max()
        # the relaxation of QGFieldNH18 stops at a user-chosen residual
        self.loose = 20.0 if case.get("tol", 0) > 1e-5 and case["cls"] == "QGFieldNH18" else 1.0
        self.tight = self._tight()
        self.boundary_tight = self._boundary(q, case, dd["om"])
        self.flip = self._flip(dd, q.prefactor) if self.ncf else 0.0

    def sides(self):
        n = self.nd
        if self.nh:
            yield self.pv, self.qref
        else:
            yield self.pv, qg.hemi(self.qref, True)
            yield -self.pv[:, ::-1], -qg.hemi(self.qref, False)

    def _tight(self):
        """Whether every Qref is determined to within the rounding of the data."""
        k, nlat, nlon = self.pv.shape
        area = M.cap_area(self.dphi * np.arange(self.nd), self.a)
        w = 0.0
        for pv, _ in self.sides():
            for kk in range(1, k - 1):
                aa = M.AreaAnalysis(pv[kk], nlat, self.a, self.dphi, self.dlam)
                for j in range(1, self.nd - 1):
                    lo, hi = aa.q_interval(area[j], 3e-7 * 4 * np.pi * self.a ** 2)
                    w = max(w, hi - lo)
        return w < 6 * EPS_Q * self.qmax

    def _boundary(self, q, case, om):
        """Whether the boundary wind of the inversion is determined to within rounding."""
        k, nlat, nlon = self.pv.shape
        jb = qg.jb_case(case)
        if case["cls"] == "QGFieldNH18":
            f, levels = self.pv, range(1, k - 1)
        else:
            u, v = (np.asarray(getattr(q, n), float) for n in ("interpolated_u", "interpolated_v"))
            f, levels = M.avort(u, v, nlat, nlon, self.a, om), range(1, k)
        cap = M.cap_area(self.dphi * jb, self.a)
        w = 0.0
        for kk in levels:
            for g in ((f[kk],) if self.nh else (f[kk], -f[kk, ::-1])):
                lo, hi = M.AreaAnalysis(g, nlat, self.a, self.dphi, self.dlam, rel=7e-6).c_interval(
                    cap, 3e-7 * 4 * np.pi * self.a ** 2)
                w = max(w, (hi - lo) / (2 * np.pi * self.a))
        return w < 5e-5 * self.umax + 1e-5 * self.a * self.qmax

    def _flip(self, d, prefactor):
        """Forcing integrated over points whose side of the contour rounding decides."""
        k = self.pv.shape[0]
        wt = np.exp(-np.arange(k) * d["dz"] / d["H"]) * d["dz"] / prefactor
        worst = 0.0
        for pv, qr in self.sides():
            h = pv[:, -self.nd:]
            near = np.abs(h[:, None] - qr[:, :, None, None]) < 4 * EPS_Q * self.qmax   # k, j, i, lon
            near[[0, -1]] = False
            worst = max(worst, (near.sum(2) * wt[:, None, None]).sum(0).max())
        return worst * self.a * self.dphi * self.ncf


def compare(mon, mech, n, got, want, c, rel=REL):
    if not c.tight and n not in qg.FIELDS_INTERP:
        mon.count("left-out:rearrangement-ill-conditioned")
        return
    if n in USES_UREF and not c.boundary_tight:
        mon.count("left-out:boundary-wind-ill-conditioned")
        return
    top = np.abs(c.p[n]).max()
    f = rel.get(n, 1e-4) * (c.loose if n in USES_UREF else 1.0)
    if n == "qref":
        atol = f * c.qmax
    elif n in ("lwa", "lwa_baro"):
        atol = f * top + 1e-6 * c.lwa
    elif n in ("ua1", "ua2", "adv_flux_f1", "adv_flux_f2", "adv_flux_f3", "ep1", "flux_vector_lambda_baro"):
        atol = f * top + (1e-6 * c.lwa + 1e-6 * c.umax * c.loose) * c.umax
    elif n == "convergence_zonal_advective_flux":
        y = np.deg2rad(c.d["ylat"])
        cos = np.maximum(np.cos(y), 0.5 * c.dphi)
        cos = np.minimum(cos[-1], cos[1])
        atol = f * top + (1e-6 * c.lwa + 1e-6 * c.umax * c.loose) * c.umax / (c.a * cos * c.dlam)
    elif n == "uref":
        atol = f * max(top, 0.01 * c.umax)
    elif n == "ncforce_baro":
        atol = 1e-5 * top + 1.1 * c.flip
    else:
        atol = f * top
    mon.close(got, want, mech, atol=atol + 1e-300)
