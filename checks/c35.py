"""Importing and using the package leaves nothing behind but results and the files asked for."""
import contextlib
import gc
import os
import shutil
import sys
import tempfile
import weakref

import numpy as np

from vf import footprint as F
from vf import gen, pristine, qg

ID = "C35"
RULE = ("every part of the package run in a process of its own while an audit hook records what it opens, starts and changes; settings of "
        "the process, descriptors, threads, files, heap and object lifetimes compared before and after; distinct = (part, workload)")
MIN = {"checked:settings": 30, "checked:writes": 30, "checked:descriptors": 30, "checked:memory": 15, "checked:freed": 15,
       "audit-events": 100, "kind:import": 2, "kind:field": 10, "kind:dataset": 4, "kind:flat": 4, "kind:legacy": 2, "kind:files": 3,
       "kind:figures": 2}
BUDGET = {"quick": 400, "thorough": 780}
KINDS = ["field", "field", "field", "dataset", "flat", "legacy", "files", "figures", "import", "field", "dataset", "flat"]
MODULES = ["falwa", "falwa.oopinterface", "falwa.xarrayinterface", "falwa.barotropic_field", "falwa.basis", "falwa.wrapper", "falwa.utilities",
           "falwa.constant", "falwa.data_storage", "falwa.stat_utils", "falwa.netcdf_utils", "falwa.plot_utils", "falwa.legacy.beta_version"]


def cases(tier, seed):
    n = 72 if tier == "quick" else 2400
    base = qg.grid_cases(seed + 351, n, parities=("odd", "odd", "even", "offset"), flavors=["noise", "gentle", "real"])
    for i, c in enumerate(base):
        for k in ("lo", "hi", "nlon", "kmax", "tol"):
            c.pop(k, None)
        c.update(kind=KINDS[i % len(KINDS)], lo=17, hi=25, nlon=24, kmax=9)
    return base


# -- workloads: each returns the objects whose fate is followed ----------------------------------------------------------------

def field(c, tmp):
    d = qg.case_of(c)
    keep = [d["u"], d["v"], d["t"], d["plev"]]
    q = gen.build(qg.cls_of(c["cls"]), d, **qg.extra_of(c))
    with contextlib.suppress(ValueError, AttributeError, TypeError):
        q.compute_lwa_and_barotropic_fluxes()      # not yet
    q.interpolate_fields()
    with contextlib.suppress(ValueError):
        q.compute_reference_states()
        q.compute_lwa_only()
        r = gen.rng_of(c["seed"], 35)
        f = 1e-10 * r.standard_normal(np.shape(q.qgpv)) if c["seed"] % 2 and c["parity"] == "odd" else None
        q.compute_lwa_and_barotropic_fluxes(ncforce=f)
        q.compute_layerwise_lwa_fluxes(ncforce=f)
        if c["parity"] == "odd":
            q.compute_ncforce_from_heating_rate(1e-5 * r.standard_normal(d["u"].shape))
    q.get_latitude_dim()
    with contextlib.suppress(Exception):
        gen.build(qg.cls_of(c["cls"]), dict(d, u=d["u"][:-1]))
    return keep + [q]


def dataset(c, tmp):
    import xarray as xr
    from falwa.xarrayinterface import QGDataset, hemisphere_to_globe, integrate_budget
    d = qg.case_of(c)
    co = {"time": np.array(["2001-01-01", "2001-01-02"], "datetime64[ns]"), "plev": d["plev"], "lat": d["ylat"], "lon": d["xlon"]}
    ds = xr.Dataset({n: (("time", "plev", "lat", "lon"), np.stack([d[n], 0.9 * d[n] if n != "t" else d[n]])) for n in "uvt"}, coords=co)
    q = QGDataset(ds, qgfield=qg.cls_of(c["cls"]), qgfield_kwargs=dict(d["kw"], **qg.extra_of(c)))
    q.interpolate_fields()
    with contextlib.suppress(ValueError):
        q.compute_reference_states()
        terms = q.compute_lwa_and_barotropic_fluxes()
        q.compute_layerwise_lwa_fluxes()
        integrate_budget(terms)
    q.static_stability
    if c["parity"] == "odd":
        hemisphere_to_globe(ds.sel(lat=slice(0, None)))
    return [q, ds]


def flat(c, tmp):
    import xarray as xr
    from falwa import basis, stat_utils, utilities, wrapper
    from falwa.barotropic_field import BarotropicField
    r = gen.rng_of(c["seed"], 3535)
    n, m, a = int(r.integers(20, 40)), 48, 6.378e6
    y, x = np.linspace(-90, 90, n), np.arange(m) * 360.0 / m
    f = 1.4e-4 * np.sin(np.deg2rad(y))[:, None] + 2e-5 * r.standard_normal((n, m))
    cl = np.abs(np.cos(np.deg2rad(y)))
    dphi = np.deg2rad(y[1] - y[0])
    area = np.outer(2 * np.pi * a ** 2 * cl * dphi / m, np.ones(m))
    dmu = a * cl * dphi
    b = BarotropicField(x, y, pv_field=f)
    b.equivalent_latitudes
    b.lwa
    q = wrapper.barotropic_eqlat_lwa(y, f, area, dmu, n, return_partitioned_lwa=True)[0]
    wrapper.barotropic_input_qref_to_compute_lwa(y, q, f, area, dmu)
    wrapper.eqvlat_hemispheric(y, f, area)
    wrapper.eqvlat_bracket_hemispheric(y, f, area, vgrad=f)
    wrapper.qgpv_eqlat_lwa(y, f, area, dmu)
    wrapper.qgpv_eqlat_lwa_ncforce(y, f, f, area, dmu)
    wrapper.qgpv_eqlat_lwa_options(y, f, area, dmu, vgrad=f, ncforce=f)
    wrapper.qgpv_input_qref_to_compute_lwa(y, q, f, area, dmu)
    wrapper.theta_lwa(y, f * 1e5 + 300, area, dmu)
    basis.eqvlat_fawa(y, f, area, n)
    basis.eqvlat_vgrad(y, f, area, n, vgrad=f)
    basis.lwa(m, n, f, q, dmu)
    utilities.zonal_convergence(f, cl, 2 * np.pi / m)
    utilities.meridional_divergence(f, cl, dphi)
    utilities.curl_2d(f, f, cl, 2 * np.pi / m, dphi)
    z = np.arange(6) * 1000.0
    th = 300 + 0.004 * z[:, None, None] + r.standard_normal((6, n, m))
    utilities.static_stability(z, area, th)
    s = xr.DataArray(r.standard_normal((8, 5, 6)), dims=("time", "lat", "lon"), coords={"time": np.arange(8)})
    stat_utils.calculate_covariance(s, s ** 2)
    return [b, f, area]


def legacy(c, tmp):
    from checks import c31
    from falwa.legacy import beta_version
    s = c31.state(gen.rng_of(c["seed"], 31))
    beta_version.solve_uref_both_bc("t", **s)
    return list(s.values())


def files(c, tmp):
    import xarray as xr
    from falwa import netcdf_utils
    src, out = os.path.join(tmp, "given.nc"), os.path.join(tmp, "asked-for.nc")
    if not os.path.exists(src):
        r = gen.rng_of(c["seed"], 36)
        xr.Dataset({"u": (("time", "lat", "lon"), r.standard_normal((5, 8, 9)))}, coords={"time": np.arange(5)}).to_netcdf(src)
        return []
    netcdf_utils.extract_one_timeslice(src, out, timeslice=[3, 1])
    return []


def figures(c, tmp):
    from matplotlib import pyplot as plt

    from falwa import plot_utils
    r = gen.rng_of(c["seed"], 37)
    x, y = np.arange(0, 360, 10.0), np.linspace(-90, 90, 19)
    plot_utils.compare_two_fields(r.standard_normal((19, 36)), r.standard_normal((19, 36)), "a", "b", x, y, "t",
                                  savefig_fname=os.path.join(tmp, "asked-for.png"))
    plt.close("all")
    return []


def importing(c, tmp):
    import importlib
    names = list(MODULES)
    gen.rng_of(c["seed"], 38).shuffle(names)
    for n in names:
        importlib.import_module(n)
    return []


WORK = {"field": field, "dataset": dataset, "flat": flat, "legacy": legacy, "files": files, "figures": figures, "import": importing}
ASKED = {"files": {"asked-for.nc"}, "figures": {"asked-for.png"}}


# -- in processes of their own -------------------------------------------------------------------------------------------------

def needed(kind, c):
    """The modules of others that this part brings in."""
    tmp = tempfile.mkdtemp()
    try:
        importing(c, tmp)
        WORK[kind](c, tmp)
        WORK[kind](c, tmp)
        return F.third_party()
    finally:
        shutil.rmtree(tmp)


def tree(top):
    return sorted(os.path.join(p, n) for p, ds, fs in os.walk(top) for n in ds + fs)


def observed(kind, c, modules):
    """What one run of that part changes, and what becomes of memory over more of them."""
    for n in [m for m in sys.modules if m == "falwa" or m.startswith("falwa.")]:
        del sys.modules[n]
    F.preload(modules)
    home = tempfile.mkdtemp()
    os.chdir(home)
    work = os.path.join(home, "work")
    os.mkdir(work)
    out = {"kind": kind}
    # what the other packages do to themselves on first use
    if kind == "files":
        import xarray as xr
        files(c, work)
        with xr.open_dataset(os.path.join(work, "given.nc")) as ds:
            ds.isel(time=[0]).to_netcdf(os.path.join(work, "other.nc"))
    if kind == "figures":
        from matplotlib import pyplot as plt
        fig, ax = plt.subplots()
        fig.colorbar(ax.contourf(np.eye(4)), ax=ax)
        fig.suptitle("a title")
        fig.savefig(os.path.join(work, "other.png"))
        plt.close("all")
    np.random.seed(c["seed"] % 1000)
    gc.collect()
    watch = F.Watch()
    s0, n0, f0, d0, t0 = F.settings(True), F.namespaces(), tree(home), F.descriptors(), F.tasks()
    watch.on = True
    importing(c, work)
    followed = WORK[kind](c, work)
    watch.on = False
    s1, n1 = F.settings(True), F.namespaces()
    out["settings"] = sorted(k for k in s0 if s0[k] != s1.get(k))
    out["changes"] = {k: [str(s0[k])[:200], str(s1.get(k))[:200]] for k in out["settings"]}
    out["patched"] = F.patched(n0, n1)
    refs = []
    for o in followed:
        with contextlib.suppress(TypeError):
            refs.append((type(o).__name__, weakref.ref(o)))
    out["followed"] = len(refs)
    followed = o = None
    gc.collect()
    out["kept"] = [n for n, r in refs if r() is not None]
    out["descriptors"] = sorted(v for k, v in F.descriptors().items() if k not in d0 and not v.startswith(sys.prefix))
    out["tasks"] = F.tasks() - t0
    asked = ASKED.get(kind, set())
    out["writes"] = [w for w in watch.seen if not (w[0] == "write" and os.path.basename(w[1]) in asked and os.path.dirname(w[1]) == work)]
    out["events"] = watch.events
    out["files"] = [os.path.relpath(p, home) for p in tree(home) if p not in f0 and not (os.path.dirname(p) == work
                                                                                        and os.path.basename(p) in asked)]
    if kind in ("field", "dataset", "flat", "legacy"):
        size = []
        for _ in range(9):
            WORK[kind](c, work)
            gc.collect()
            size.append((F.heap(), len(gc.get_objects())))
        out["heap"] = [s[0] for s in size]
        out["objects"] = [s[1] for s in size]
    os.chdir("/")
    shutil.rmtree(home)
    return out


_modules = {}


def run(case, mon):
    pristine.serve()
    kind = case["kind"]
    if kind not in _modules:
        got = pristine.call(needed, kind, case)
        if got[0] != "ok":
            raise RuntimeError(got)
        _modules[kind] = got[1]
    got = pristine.call(observed, kind, case, _modules[kind])
    if got[0] != "ok":
        mon.fail("unusable:" + str(got[1]), kind=kind, why=str(got[2])[:300], tb=str(got[3])[-800:])
        return
    o = got[1]
    mon.count("kind:" + kind)
    mon.count("audit-events", o["events"])
    mon.ok(not o["settings"], "settings", kind=kind, changed=o["changes"])
    mon.ok(not o["patched"], "patched", kind=kind, what=o["patched"][:10])
    mon.ok(not o["writes"], "writes", kind=kind, what=o["writes"][:10])
    mon.ok(not o["files"], "files", kind=kind, what=o["files"][:10])
    mon.ok(not o["descriptors"], "descriptors", kind=kind, what=o["descriptors"][:10])
    mon.ok(o["tasks"] <= 0, "threads", kind=kind, more=o["tasks"])
    if o["followed"]:
        mon.ok(not o["kept"], "freed", kind=kind, what=o["kept"])
        mon.count("objects-followed", o["followed"])
    if "heap" in o:
        # what every one of the last five runs adds
        grow = min(np.diff(o["heap"])[-5:])
        mon.ok(grow < 4000, "memory", kind=kind, bytes=o["heap"])
        objs = min(np.diff(o["objects"])[-5:])
        mon.ok(objs < 1, "objects", kind=kind, counts=o["objects"])
        mon.sample({"kind": kind, "cls": case["cls"], "heap": o["heap"], "objects": o["objects"], "events": o["events"]})
    mon.nontrivial((kind, case["seed"]))
