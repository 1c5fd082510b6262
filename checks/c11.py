"""Barotropic outputs: density-weighted averages and the identities between them."""
import numpy as np

from vf import gen, qg
from vf import model as M

ID = "C11"
RULE = ("every barotropic output of a random state against the density-weighted vertical average of the layerwise "
        "terms recomputed from the definitions, and against the finite-difference identities; distinct = state")
MIN = {"checked:adv_flux_f1": 50, "checked:zonal-integral": 50}


def cases(tier, seed):
    n = int(240 * 2.5) if tier == "quick" else 12000
    return qg.grid_cases(seed + 111, n, full=True)


def run(case, mon):
    d = qg.case_of(case)
    jb = qg.jb_case(case)
    nh = case["nh"]
    a, H, dz = d["a"], d["H"], d["dz"]
    q = qg.run(case["cls"], d, "ref", **qg.extra_of(case))
    q.compute_layerwise_lwa_fluxes()
    r = q.compute_lwa_and_barotropic_fluxes()
    ts, tn, ss, sn = qg.model_stability(case["cls"], d, jb)
    e = qg.expected_layer(q, d, jb, ts, tn, northonly=nh)
    nlat, nlon = d["ylat"].size, d["xlon"].size
    nd = (nlat + 1) // 2
    dphi, dlam = np.pi / (nlat - 1), 2 * np.pi / nlon
    yl = d["ylat"][nd - 1:] if nh else d["ylat"]
    c = np.cos(np.deg2rad(yl))
    f1, f2, f3 = (M.vert_avg(e[n], dz, H) for n in ("ua1", "ua2", "ep1"))
    got = {n: np.array(getattr(q, n), float) for n in qg.FIELDS_BARO}
    for n in r._fields:
        mon.equal(getattr(r, n), getattr(q, n), "returned", name=n)
    # averages of the terms the same object reports layer by layer
    for n, layer in (("adv_flux_f1", "ua1"), ("adv_flux_f2", "ua2"), ("adv_flux_f3", "ep1"), ("lwa_baro", "lwa")):
        w = M.vert_avg(np.asarray(getattr(q, layer), float), dz, H)
        mon.close(got[n], w, "average-of-layers", atol=3e-6 * np.abs(w).max() + 1e-12, name=n)
    uref = np.abs(q.uref).max()
    U = np.abs(q.interpolated_u).max() + uref
    V = np.abs(q.interpolated_v).max()
    pvm = M.vert_avg(np.abs(np.asarray(q.qgpv, float)).max(axis=(1, 2))[:, None, None], dz, H)[0, 0]
    lw = pvm * a * np.pi / 2
    t3 = 1e-6 * (U ** 2 + V ** 2) + M.vert_avg(e["ep1_tol"], dz, H)
    mon.close(got["adv_flux_f1"], f1, "adv_flux_f1", atol=3e-8 * uref * lw)
    mon.close(got["adv_flux_f2"], f2, "adv_flux_f2", atol=3e-8 * U * lw)
    mon.close(got["adv_flux_f3"], f3, "adv_flux_f3", atol=t3)
    tot = got["adv_flux_f1"] + got["adv_flux_f2"] + got["adv_flux_f3"]
    big = np.abs(got["adv_flux_f1"]).max() + np.abs(got["adv_flux_f2"]).max() + np.abs(got["adv_flux_f3"]).max()
    mon.close(got["flux_vector_lambda_baro"], tot, "lambda-is-f1+f2+f3", atol=1e-6 * big)
    # zonal convergence: centred, periodic, no convergence at the poles
    conv = np.zeros_like(tot)
    ok = c > 1e-5
    conv[ok] = -(np.roll(tot, -1, 1) - np.roll(tot, 1, 1))[ok] / (2 * dlam * a * c[ok, None])
    mon.close(got["convergence_zonal_advective_flux"], conv, "convergence",
              atol=(1e-9 * big / (dlam * a * np.maximum(c, 1e-5)))[:, None] * ok[:, None] + 1e-20 + 0 * tot)
    mon.close((got["convergence_zonal_advective_flux"] * c[:, None]).sum(1), np.zeros(c.size), "zonal-integral",
              atol=1e-9 * big / (dlam * a) * nlon)
    # eddy momentum flux: centred difference of u_e v_e cos^2
    ep2, ep3 = M.vert_avg(e["ep2"], dz, H), M.vert_avg(e["ep3"], dz, H)
    dem = np.zeros_like(tot)
    dem[ok] = ((ep2 - ep3) / (2 * a * dphi * np.maximum(c, 1e-9)[:, None]))[ok]
    mon.close(got["divergence_eddy_momentum_flux"][ok], dem[ok], "divergence_eddy_momentum_flux",
              atol=(4e-7 * U * V / (2 * a * dphi * np.maximum(c, 1e-9)))[ok][:, None] + 1e-20 + 0 * dem[ok])
    if not ok.all():
        mon.close(got["divergence_eddy_momentum_flux"][~ok], dem[~ok], "no-divergence-at-pole", atol=1e-12)
    # low-level heat flux
    ep4 = e["ep4"] / M.prefactor(d["kmax"], dz, H)
    dthm = max(1e-3, float(np.min([ts[1] - ts[0], tn[1] - tn[0]])))
    mon.close(got["meridional_heat_flux"], ep4, "meridional_heat_flux",
              atol=(2 * d["om"] * dz / M.prefactor(d["kmax"], dz, H)) * V * 4e-4 / dthm + 2e-6 * np.abs(ep4).max())
    # meridional component of the flux vector
    ur = np.asarray(q.uref, float)
    u, v = (np.asarray(x, float) for x in (q.interpolated_u, q.interpolated_v))
    if nh:
        u, v = u[:, nd - 1:], v[:, nd - 1:]
    phi_v = M.vert_avg(-(u - ur[:, :, None]) * v * c[None, :, None], dz, H)
    mon.close(got["flux_vector_phi_baro"], phi_v, "flux_vector_phi_baro", atol=1e-9 * U * V)
    mon.equal(got["ncforce_baro"], np.zeros_like(got["ncforce_baro"]), "no-forcing-no-ncforce")
    for n in qg.FIELDS_BARO:
        mon.ok(np.isfinite(got[n]).all(), "finite", name=n)
    mon.nontrivial((case["seed"], case["cls"]))
    mon.sample({"case": case, "max": {n: float(np.abs(got[n]).max()) for n in got}})
