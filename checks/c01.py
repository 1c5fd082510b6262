"""Vertical interpolation, pseudoheight and potential temperature."""
import numpy as np

from vf import gen, qg
from vf import model as M

ID = "C01"
RULE = ("a QGField (both classes, odd / even / offset grids, user or Earth constants, hemispheric and "
        "global mode, pressure levels or an even pseudoheight grid) taken through interpolate_fields; "
        "distinct = distinct input state")
MIN = {"checked:interpolated_u": 10, "levels:below-ground": 1, "checked:even-grid": 3,
       "defaults:reference-state": 2}


def cases(tier, seed):
    n = int(600 * 2.5) if tier == "quick" else 30000
    out = [dict(kind="defaults", seed=seed * 31 + i, cls=c, nh=bool(i % 2), flavor="noise", parity="odd")
           for i in range(2 if tier == "quick" else 20) for c in qg.CLASSES]
    return out + qg.grid_cases(seed, n, full=True, parities=("odd", "odd", "even", "offset"))


def defaults(case, mon):
    """Nothing but grids and fields given: the documented constants, 49 levels every kilometre and the usual
    solver settings are used, for the fields and for the reference state."""
    d = gen.qg_case(case["seed"], flavor=case["flavor"], parity=case["parity"], vary=False, kmax=49, nlon=12,
                    lo=19, hi=25)
    r = gen.rng_of(case["seed"], 15)
    plev = gen.make_plev(r, 48100.0, 7000.0, nlev=30)
    u, v, t = gen.state(r, plev, d["ylat"], d["xlon"], 7000.0, 287.0 / 1004.0, case["flavor"])
    d.update(plev=plev, u=u, v=v, t=t, kw={}, dz=1000.0)
    full = dict(kmax=49, dz=1000.0, maxit=100000, npart=d["ylat"].size, tol=1e-5, rjac=0.95, scale_height=7000.0,
                cp=1004.0, dry_gas_constant=287.0, omega=7.29e-5, planet_radius=6.378e6,
                data_on_evenly_spaced_pseudoheight_grid=False, raise_error_for_nonconvergence=True)
    if case["cls"] == "QGFieldNHN22":
        full["eq_boundary_index"] = 5
        del full["raise_error_for_nonconvergence"]
    short = {}
    if case["nh"]:
        short["northern_hemisphere_results_only"] = True
    else:
        full["northern_hemisphere_results_only"] = False
    out = []
    for kw in (short, dict(full, **short)):
        q = gen.build(qg.cls_of(case["cls"]), d, **kw)
        q.interpolate_fields(return_named_tuple=False)
        try:
            qg.solve(q)
            names = qg.FIELDS_INTERP + qg.FIELDS_REF
        except ValueError:
            names = qg.FIELDS_INTERP
        out.append((names, {n: np.array(getattr(q, n)) for n in names}, np.array(q.height), q))
    a, b = out
    mon.ok(a[0] == b[0], "defaults", why="one of them does not converge")
    mon.equal(a[2], b[2], "defaults", name="height")
    mon.close(a[2], 1000.0 * np.arange(49), "defaults", atol=1e-6)
    mon.close(a[3].prefactor, b[3].prefactor, "defaults", rtol=1e-12)
    for n in a[0]:
        if n in b[1]:
            mon.equal(a[1][n], b[1][n], "defaults", name=n)
    mon.count("defaults:reference-state", int(a[0] != qg.FIELDS_INTERP))
    mon.nontrivial((case["seed"], case["cls"]))


def run(case, mon):
    if case.get("kind") == "defaults":
        return defaults(case, mon)
    d = qg.case_of(case)
    q = gen.build(qg.cls_of(case["cls"]), d, **qg.extra_of(case))
    nt = q.interpolate_fields()
    z = M.pseudoheight(d["plev"], d["H"])
    h = qg.heights(d)
    mon.close(q.height, h, "height", atol=1e-6)
    mon.ok(q.kmax == d["kmax"] and abs(q.dz - d["dz"]) < 1e-6, "kmax-dz", got=(q.kmax, q.dz))
    th = M.theta_of(d["t"], d["plev"], d["H"], d["R"], d["cp"])
    mon.count("levels:below-ground", int((h < z[0]).sum()))
    even = d["ylat"].size % 2 == 0
    for name, raw in (("u", d["u"]), ("v", d["v"]), ("theta", th)):
        want = raw
        if even:
            yl = np.linspace(-90, 90, d["ylat"].size + 1)
            want = M.lin_interp(d["ylat"], want, yl, axis=1)
        if not case["on_grid"]:
            want = M.lin_interp(z, want, h)
        if even:
            want = M.lin_interp(yl, want, d["ylat"], axis=1)
            mon.count("checked:even-grid")
        got = getattr(q, "interpolated_" + name)
        mon.close(got, want, "interpolated_" + name, rtol=1e-10)
    # what the call returns is what the properties report
    for a, b in ((nt.U, q.interpolated_u), (nt.V, q.interpolated_v), (nt.Theta, q.interpolated_theta),
                 (nt.QGPV, q.qgpv), (nt.Static_stability, q.static_stability)):
        if case["nh"] and a is nt.Static_stability and case["cls"] == "QGFieldNHN22":
            mon.equal(np.asarray(a)[1], b, "named-tuple")
        else:
            mon.equal(a, b, "named-tuple")
    # interpolation onto a level that is an input level returns the input
    if not case["on_grid"] and not even:
        for k in range(d["kmax"]):
            hit = np.nonzero(np.abs(z - h[k]) < 1e-7)[0]
            if hit.size:
                mon.count("levels:coincide")
                mon.close(q.interpolated_u[k], d["u"][hit[0]], "coincident-level", atol=1e-8)
    mon.nontrivial((case["seed"], case["cls"]))
    mon.sample({"case": case, "umax": float(np.abs(q.interpolated_u).max()), "levels": len(z)})
