"""Driving QGField objects and the hemispheric views the oracles work on.

Only the public surface of falwa is used.
"""
import importlib

import numpy as np

from . import gen
from . import model as M
from .mon import Skip

CLASSES = ("QGFieldNH18", "QGFieldNHN22")

FIELDS_INTERP = ["qgpv", "interpolated_u", "interpolated_v", "interpolated_theta"]
FIELDS_REF = ["qref", "uref", "ptref"]
FIELDS_BARO = ["adv_flux_f1", "adv_flux_f2", "adv_flux_f3", "convergence_zonal_advective_flux",
               "divergence_eddy_momentum_flux", "meridional_heat_flux", "flux_vector_lambda_baro",
               "flux_vector_phi_baro", "lwa_baro", "u_baro", "ncforce_baro"]
FIELDS_LAYER = ["lwa", "ua1", "ua2", "ep1", "ep2", "ep3", "stretch_term"]
ALL = FIELDS_INTERP + FIELDS_REF + FIELDS_BARO + FIELDS_LAYER


def cls_of(name):
    return getattr(importlib.import_module("falwa.oopinterface"), name)


def solve(q):
    """Reference states; a reported failure to converge is a legitimate outcome, not a result."""
    try:
        q.compute_reference_states(return_named_tuple=False)
    except ValueError as e:
        if "converge" in str(e):
            raise Skip("nonconvergent") from e
        raise


def run(cname, d, upto="layer", ncforce=None, **extra):
    """A field taken through the documented sequence of calls."""
    q = gen.build(cls_of(cname), d, **extra)
    steps = ["build", "interp", "ref", "baro", "layer"]
    n = steps.index(upto)
    if n >= 1:
        q.interpolate_fields(return_named_tuple=False)
    if n >= 2:
        solve(q)
    if n >= 3:
        q.compute_lwa_and_barotropic_fluxes(return_named_tuple=False, ncforce=ncforce)
    if n >= 4:
        q.compute_layerwise_lwa_fluxes(ncforce=ncforce)
    return q


def grab(q, names=ALL):
    out = {}
    for n in names:
        out[n] = np.array(getattr(q, n), dtype=float)
    return out


def stab(q):
    s = q.static_stability
    return np.array(s, dtype=float)


def jb_of(cname, q=None, jb=None):
    if cname == "QGFieldNH18":
        return 0
    return 5 if jb is None else jb


def heights(d):
    return np.arange(d["kmax"]) * d["dz"]


def ref_rows(cname, nlat, jb):
    nd = (nlat + 1) // 2
    return nd - (jb if cname == "QGFieldNHN22" else 0)


def model_stability(cname, d, jb):
    """t0 and stability per hemisphere, from the pressure-level data: (ts, tn, ss, sn)."""
    th = M.theta_of(d["t"], d["plev"], d["H"], d["R"], d["cp"])
    nlat = d["ylat"].size
    ts, tn, ss, sn = M.stability(d["plev"], th, d["ylat"], d["H"], heights(d),
                                 ref_rows(cname, nlat, jb))
    if cname == "QGFieldNH18":
        t, s = 0.5 * (ts + tn), 0.5 * (ss + sn)
        return t, t, s, s
    return ts, tn, ss, sn


def hemi(f, north, sign=1.0):
    """Rows equator..pole of a global (k, nlat[, nlon]) array; sign applies in the south."""
    f = np.asarray(f, dtype=float)
    nlat = f.shape[1]
    nd = (nlat + 1) // 2
    if north:
        return f[:, nd - 1:]
    return sign * f[:, nd - 1::-1]


def put_globe(n, s):
    """Global array from equator..pole rows; the equator row is the southern one's."""
    return np.concatenate([s[:, ::-1], n[:, 1:]], axis=1)


def expected_layer(q, d, jb, t0s, t0n, ncf=None, northonly=False):
    """The layerwise terms the definitions give for q's own reference states."""
    pv, u, v, th = (np.asarray(getattr(q, n), float) for n in FIELDS_INTERP)
    k, nlat, nlon = pv.shape
    ncf = np.zeros_like(pv) if ncf is None else np.asarray(ncf, float)
    dphi = np.pi / (nlat - 1)
    qref, uref, ptref = (np.asarray(getattr(q, n), float) for n in FIELDS_REF)
    res = {}
    for north in ((True,) if northonly else (True, False)):
        if northonly:
            r = (qref, uref, ptref)
        else:
            r = (hemi(qref, north, -1.0), hemi(uref, north), hemi(ptref, north))
        res[north] = M.lwa_and_fluxes(
            hemi(pv, north, -1.0), hemi(u, north), hemi(v, north, -1.0), hemi(th, north),
            hemi(ncf, north), *r, t0n if north else t0s, dphi, d["a"], d["om"], d["dz"],
            d["H"], d["R"], d["cp"], jb)
    n = res[True]
    if northonly:
        return n
    s = res[False]
    out = {}
    for key in ("a1", "a2", "ua1", "ua2", "ep1", "ep1_tol"):
        out[key] = put_globe(n[key], s[key])
    out["ncf"] = put_globe(n["ncf"], -s["ncf"])
    out["ep2"] = put_globe(n["ep2"], -s["ep3"])
    out["ep3"] = put_globe(n["ep3"], -s["ep2"])
    out["ep4"] = put_globe(n["ep4"][None], s["ep4"][None])[0]
    return out


def case_of(case, **kw):
    """The qg_case a case dictionary names."""
    keys = ("flavor", "parity", "vary", "on_grid", "lo", "hi", "kmax", "nlon", "dz")
    args = {k: case[k] for k in keys if k in case}
    args.update(kw)
    return gen.qg_case(case["seed"], **args)


def analysis_case(d):
    """The same atmosphere on the grid the analysis is done on (an even grid gets an equator)."""
    n = d["ylat"].size
    if n % 2:
        return d
    from scipy.interpolate import interp1d
    y = np.linspace(-90.0, 90.0, n + 1)
    y[n // 2] = 0.0
    m = dict(d)
    m["ylat"] = y
    z = M.pseudoheight(d["plev"], d["H"])
    ex = np.exp(d["R"] / d["cp"] * z / d["H"])[:, None, None]
    for name in ("u", "v", "t"):
        f = d[name] * ex if name == "t" else d[name]
        f = interp1d(d["ylat"], f, axis=1, fill_value="extrapolate")(y)
        m[name] = f / ex if name == "t" else f
    return m


def grid_cases(seed, n, classes=CLASSES, flavors=None, parities=("odd",), nh=(False, True),
               on_grid=(False, True), full=False, **more):
    """n random but reproducible workload descriptions covering the option product; with `full`, two more cases
    of the size the library is used with."""
    r = gen.rng_of(seed, 4242)
    out = full_size(seed, classes, nh) if full else []
    flavors = flavors or gen.FLAVORS
    for i in range(n):
        out.append(dict(seed=int(seed * 100003 + i * 17 + 1),
                        cls=classes[i % len(classes)],
                        flavor=flavors[(i // 2) % len(flavors)],
                        parity=parities[int(r.integers(len(parities)))],
                        nh=bool(nh[int(r.integers(len(nh)))]),
                        on_grid=bool(r.random() < 0.25 and True in on_grid),
                        jb=int(r.choice([5, 5, 5, 1, 2, 3, 4, 6])), **more))
        x = r.random()
        if x < 0.08:        # barely enough rows, levels or longitudes
            out[-1].update(lo=13, hi=16, kmax=int(r.choice([5, 6, 7])), nlon=int(r.choice([4, 5, 8])),
                           jb=int(r.choice([1, 2])))
        elif x < 0.11:      # the size of a coarse reanalysis
            out[-1].update(lo=61, hi=91, kmax=int(r.choice([20, 31])), nlon=int(r.choice([48, 73])),
                           tol=1e-4)
    return out


def full_size(seed, classes=CLASSES, nh=(False, True)):
    """A real atmosphere at the size of the data sets the library is used with: 1.5 degrees, 49 levels."""
    return [dict(seed=int(seed * 100003 + 9 + i), cls=classes[i % len(classes)], flavor="real", parity="odd",
                 nh=bool(nh[(seed + i) % len(nh)]), on_grid=False, jb=5, lo=121, hi=121, nlon=240, kmax=49, dz=1000.0,
                 vary=False, fullsize=True) for i in range(2)]


def extra_of(case):
    kw = {"northern_hemisphere_results_only": case.get("nh", False)}
    if case["cls"] == "QGFieldNHN22" and case.get("jb", 5) != 5:
        kw["eq_boundary_index"] = case["jb"]
    if "tol" in case and case["cls"] == "QGFieldNH18":
        kw["tol"] = case["tol"]
    return kw


def jb_case(case):
    return case.get("jb", 5) if case["cls"] == "QGFieldNHN22" else 0
