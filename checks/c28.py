"""Units are the user's: rescaling lengths, times and temperatures rescales every diagnostic."""
import numpy as np

from vf import gen, qg
from vf import model as M

ID = "C28"
RULE = ("a state with its planet (radius, rotation, scale height, heat capacity, gas constant, dz, forcing) and the "
        "same expressed in units of length, time and temperature changed by powers of two, for which floating-point "
        "results must scale exactly; distinct = state and unit change")
MIN = {"checked:scale:qgpv": 60, "checked:scale:ep1": 60, "checked:scale:uref": 60, "checked:scale:meridional_heat_flux": 60,
       "checked:scale-only:lwa": 60, "checked:scale:forcing-of-heating": 40}

# field -> powers of (length, 1/time, temperature)
DIM = {"qgpv": (0, 1, 0), "interpolated_u": (1, 1, 0), "interpolated_v": (1, 1, 0), "interpolated_theta": (0, 0, 1),
       "qref": (0, 1, 0), "uref": (1, 1, 0), "ptref": (0, 0, 1),
       "adv_flux_f1": (2, 2, 0), "adv_flux_f2": (2, 2, 0), "adv_flux_f3": (2, 2, 0),
       "convergence_zonal_advective_flux": (1, 2, 0), "divergence_eddy_momentum_flux": (1, 2, 0),
       "meridional_heat_flux": (1, 2, 0), "flux_vector_lambda_baro": (2, 2, 0), "flux_vector_phi_baro": (2, 2, 0),
       "lwa_baro": (1, 1, 0), "u_baro": (1, 1, 0), "ncforce_baro": (1, 2, 0),
       "lwa": (1, 1, 0), "ua1": (2, 2, 0), "ua2": (2, 2, 0), "ep1": (2, 2, 0), "ep2": (2, 2, 0), "ep3": (2, 2, 0),
       "stretch_term": (1, 2, 0)}


def cases(tier, seed):
    n = int(240 * 2.5) if tier == "quick" else 9000
    out = qg.grid_cases(seed + 281, n, full=True, parities=("odd", "odd", "even", "offset"))
    r = gen.rng_of(seed, 28)
    for c in out:
        c["L"], c["W"], c["K"] = (int(x) for x in r.integers(-2, 3, 3))
    return out


def polynomial(d, case, K):
    """Whether the smoothing spline of both mean profiles is a single cubic in either unit."""
    d = qg.analysis_case(d)
    z = M.pseudoheight(d["plev"], d["H"])
    th = M.theta_of(d["t"], d["plev"], d["H"], d["R"], d["cp"]).mean(-1)
    w = np.cos(np.deg2rad(d["ylat"]))
    n = qg.ref_rows(case["cls"], d["ylat"].size, qg.jb_case(case))
    for s in (slice(None, n), slice(-n, None)):
        t = (th[:, s] * w[s]).sum(1) / w[s].sum()
        x = (z - z.mean()) / z.std()
        res = t - np.polyval(np.polyfit(x, t, 3), x)
        if (res ** 2).sum() * K * K > 0.8 * z.size:
            return False
    return True


def run(case, mon):
    d = qg.case_of(case)
    r = gen.rng_of(case["seed"], 28)
    L, W, K = 2.0 ** case["L"], 2.0 ** case["W"], 2.0 ** case["K"]
    if not polynomial(d, case, max(1.0, K)):
        # the smoothing of the stability profile is in kelvins, by choice
        K = 1.0
        mon.count("temperature-unit-kept")
    m = dict(d)
    m["u"], m["v"], m["t"] = d["u"] * L * W, d["v"] * L * W, d["t"] * K
    for n, f in (("H", L), ("a", L), ("dz", L), ("om", W), ("R", L * L * W * W / K), ("cp", L * L * W * W / K)):
        m[n] = d[n] * f
    m["kw"] = dict(d["kw"], scale_height=m["H"], planet_radius=m["a"], omega=m["om"], cp=m["cp"],
                   dry_gas_constant=m["R"])
    if not case["on_grid"]:
        m["kw"]["dz"] = m["dz"]
    ncf = mcf = None
    if r.random() < 0.6:
        nlat = d["ylat"].size + (d["ylat"].size + 1) % 2
        ncf = 1e-10 * r.standard_normal((d["kmax"], nlat, d["xlon"].size))
        mcf = ncf * W * W
    ex = qg.extra_of(case)
    # the cases where the solver stops on rounding are the ones where a ulp decides
    p = qg.run(case["cls"], d, "layer", ncforce=ncf, **ex)
    q = qg.run(case["cls"], m, "layer", ncforce=mcf, **ex)
    a, b = qg.grab(p), qg.grab(q)
    mon.close(q.height, p.height * L, "scale:height", rtol=1e-14)
    mon.close(qg.stab(q), qg.stab(p) * K / L, "scale:static_stability", rtol=1e-9)
    for n in qg.ALL:
        i, j, k = DIM[n]
        want = a[n] * L ** i * W ** j * K ** k
        mon.close(b[n], want, "scale:" + n, rtol=TOL.get(n, 1e-5), atol=1e-300)
    if d["ylat"].size % 2:      # the heating's latitudes are the analysis' own
        heat = 1e-5 * r.standard_normal(d["u"].shape)
        mon.close(q.compute_ncforce_from_heating_rate(heating_rate=heat * K * W),
                  p.compute_ncforce_from_heating_rate(heating_rate=heat) * W * W, "scale:forcing-of-heating",
                  rtol=1e-9, atol=1e-300)
    p.compute_lwa_only()
    q.compute_lwa_only()
    for n in ("lwa", "lwa_baro", "u_baro"):
        i, j, k = DIM[n]
        mon.close(getattr(q, n), getattr(p, n) * L ** i * W ** j * K ** k, "scale-only:" + n, rtol=1e-5, atol=1e-300)
    if case["flavor"] != "zonal" and (L, W, K) != (1, 1, 1):
        mon.nontrivial((case["seed"], L, W, K))
    mon.sample({"case": case, "units": [L, W, K], "forced": ncf is not None})


TOL = {}
