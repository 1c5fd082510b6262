"""Grids without an equator row are analysed on one that has it, and results come back on the user's."""
import warnings

import numpy as np
from scipy.interpolate import interp1d

from vf import gen, qg
from vf import relate

ID = "C15"
RULE = ("an even or cell-centred latitude grid: every quantity against the odd-grid analysis of the interpolated "
        "state, interpolated back by the monitor; latitude bookkeeping on all grids; distinct = state, grid")
MIN = {"checked:grid:qgpv": 60, "checked:grid:uref": 60, "checked:grid:ep2": 60, "checked:latitudes": 100,
       "checked:shape": 1000, "checked:returned:lwa_baro": 60}


def cases(tier, seed):
    n = int(240 * 2.5) if tier == "quick" else 9000
    out = qg.grid_cases(seed + 151, n, parities=("even", "even", "offset", "offset", "odd"))
    r = gen.rng_of(seed, 15)
    for c in out:
        c["single"] = bool(r.random() < 0.2)
    return out


TUPLES = [("interpolate_fields", dict(QGPV="qgpv", U="interpolated_u", V="interpolated_v", Theta="interpolated_theta")),
          ("compute_reference_states", dict(Qref="qref", Uref="uref", PTref="ptref")),
          ("compute_lwa_and_barotropic_fluxes", {n: n for n in (
              "adv_flux_f1", "adv_flux_f2", "adv_flux_f3", "convergence_zonal_advective_flux",
              "divergence_eddy_momentum_flux", "meridional_heat_flux", "lwa_baro", "u_baro", "lwa")})]


def returned(case, d, p, ncf, ex, r, mon):
    """What the calls return is what the object holds, on the user's latitudes, whatever the deprecated argument says."""
    q = gen.build(qg.cls_of(case["cls"]), d, **ex)
    for fn, names in TUPLES:
        kw = {"ncforce": ncf} if fn.startswith("compute_lwa") and ncf is not None else {}
        if fn != "interpolate_fields" and r.random() < 0.5:
            kw["northern_hemisphere_results_only"] = bool(r.random() < 0.7)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            t = getattr(q, fn)(**kw)
        for k, n in names.items():
            got = np.asarray(getattr(t, k), float)
            mon.equal(got, np.asarray(getattr(q, n), float), "returned:" + n, grid=case["parity"], nh=case["nh"])
            mon.ok(got.shape == p[n].shape, "returned:" + n, got=got.shape, want=p[n].shape)
            if n != "lwa":      # the layerwise fluxes computed since round it differently
                mon.equal(got, p[n], "returned:" + n, grid=case["parity"], nh=case["nh"], kw=sorted(kw))


def run(case, mon):
    d = qg.case_of(case)
    nin = d["ylat"].size
    even = nin % 2 == 0
    r = gen.rng_of(case["seed"], 15)
    ncf = None
    if r.random() < 0.4:
        ncf = 1e-10 * r.standard_normal((d["kmax"], nin + (1 if even else 0), d["xlon"].size))
    ex = qg.extra_of(case)
    q = qg.run(case["cls"], d, "layer", ncforce=ncf, **ex)
    nh = case["nh"]
    nref = nin if not nh else (nin // 2 if even else nin // 2 + 1)
    mon.equal(q.ylat, d["ylat"], "latitudes")
    mon.equal(q.ylat_ref_states, d["ylat"][-nref:], "latitudes")
    mon.ok(q.get_latitude_dim() == nin, "latitudes", got=q.get_latitude_dim())
    mon.ok(q.nlat == nin and q.nlon == d["xlon"].size, "latitudes")
    dd = qg.analysis_case(d)
    ny = dd["ylat"].size
    mon.close(q.ylat_ref_states_analysis, dd["ylat"][-(ny // 2 + 1):] if nh else dd["ylat"], "latitudes", atol=1e-9)
    p = qg.grab(q)
    nlev, nlon = d["kmax"], d["xlon"].size
    for n in qg.ALL:
        rows = nin if n in qg.FIELDS_INTERP else nref
        want = (rows, nlon) if n in qg.FIELDS_BARO else ((nlev, rows) if n in qg.FIELDS_REF else (nlev, rows, nlon))
        mon.ok(p[n].shape == want, "shape", name=n, got=p[n].shape, want=want)
        mon.ok(np.isfinite(p[n]).all(), "finite", name=n)
    if case["seed"] % 3 == 0:
        returned(case, d, p, ncf, ex, r, mon)
    if not even:
        return
    o = qg.grab(qg.run(case["cls"], dd, "layer", ncforce=ncf, **ex))
    ctx = relate.Context(o, dd, case, ncf)
    for n in qg.ALL:
        ax = 0 if n in qg.FIELDS_BARO else 1
        full = n in qg.FIELDS_INTERP or not nh
        src = dd["ylat"] if full else dd["ylat"][-(ny // 2 + 1):]
        dst = d["ylat"] if full else d["ylat"][-nref:]
        want = interp1d(src, o[n], axis=ax, fill_value="extrapolate", bounds_error=False)(dst)
        relate.compare(mon, "grid:" + n, n, p[n], want, ctx)
    mon.nontrivial((case["seed"], case["parity"], nh))
    mon.sample({"case": case, "rows": nref, "analysis_rows": ny})
