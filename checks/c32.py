"""Bringing model output from hybrid levels to pressure levels."""
import contextlib
import io
import logging
import os
import runpy
import shutil
import sys
import warnings

import numpy as np

from vf import gen, stage
from checks.c29 import FakeFill
from checks.c30 import scratch

ID = "C32"
RULE = ("random hybrid coefficients, surface pressures (mountains, steps in time), fields and target levels through the "
        "functions of the conversion script and through the script itself on a small file, with a stand-in for the absent "
        "gridfill package; distinct = case")
MIN = {"checked:interpolated": 50, "checked:topography": 30, "checked:filled": 30, "script:run": 6, "checked:attributes": 60}
WATCHDOG = 120
HERE = os.path.join("scripts", "pre_process_data_in_hybrid_coordinates")
NAME = "vertical_interpolation_hybrid_to_pressure_poisson_filled_below_topo.py"
ERA5 = [1000, 975, 950, 925, 900, 875, 850, 825, 800, 775, 750, 725, 700, 650, 600, 550, 500, 450, 400, 350, 300, 250, 225, 200,
        175, 150, 125, 100, 70, 50, 30, 20, 10, 7, 5, 3]


def cases(tier, seed):
    n = 96 if tier == "quick" else 2400
    return [dict(seed=int(seed * 1033 + i), kind="script" if i % 8 == 7 else "functions") for i in range(n)]


def dataset(r, nlev, nt, nlat, nlon, names):
    """A file as the model writes it, from the top down."""
    import xarray as xr
    eta = np.sort(r.uniform(0.003, 0.999, nlev - 1))
    eta = np.concatenate([[0.002], eta, [1.0]])
    b = np.where(eta > 0.1, ((eta - 0.1) / 0.9) ** r.uniform(1.0, 1.8), 0.0)
    a = eta - b
    lat, lon = np.linspace(-80, 80, nlat), np.arange(nlon) * 360.0 / nlon
    ps = 100000.0 - 35000.0 * r.random((1, nlat, nlon)) ** 2 + 800.0 * r.standard_normal((nt, nlat, nlon))
    # models keep fields in single precision, and have reference pressures and latitudes of their own
    single = r.random() < 0.4
    p0 = 100000.0 if r.random() < 0.5 else float(r.choice([101325.0, 101300.0, 98000.0]))
    if r.random() < 0.3:
        lat, lon = lat[::-1] * 1.125, lon - 180.0
    if single:
        ps = ps.astype("f4")
    p = 0.5 * ((a[1:] + a[:-1])[:, None, None] * p0 + (b[1:] + b[:-1])[:, None, None] * ps[:, None].astype(float)) / 100.0
    ds = xr.Dataset()
    for n in names:
        f = 30 * np.cos(np.log(p) * r.uniform(0.5, 2) + r.uniform(0, 6)) + np.cos(np.deg2rad(lat))[:, None] * 5
        f = (f + r.standard_normal(f.shape)).astype("f4" if single else "f8")
        ds[n] = (("time", "lev", "lat", "lon"), f, {"units": "unit of " + n, "long_name": "name of " + n})
    ds["PS"] = (("time", "lat", "lon"), ps, {"units": "Pa"})
    ds["P0"] = p0
    ds["hyai"], ds["hybi"] = ("ilev", a), ("ilev", b)
    ds["time_bnds"] = (("time", "nbnd"), np.stack([np.arange(nt), np.arange(nt) + 1.0], -1))
    ds = ds.assign_coords(
        time=("time", np.arange(nt) * 0.25 + float(r.integers(0, 50)), {"long_name": "time", "units": "days since 2001-01-01"}),
        lat=("lat", lat, {"units": "degrees_north"}), lon=("lon", lon, {"units": "degrees_east"}),
        lev=("lev", 500.0 * ((a + b)[1:] + (a + b)[:-1])), ilev=("ilev", 1000.0 * (a + b)))
    ds.attrs = {"title": "case %d" % r.integers(1000), "source": "model"}
    return ds, p


def column(p, f, new):
    """Linear in pressure inside the column; nan outside; True where rounding may decide."""
    out = np.interp(new, p, f)
    out[(new < p[0]) | (new > p[-1])] = np.nan
    edge = (np.abs(new - p[0]) < 1e-9 * p[0]) | (np.abs(new - p[-1]) < 1e-9 * p[-1])
    return out, edge


def expected(p, f, new):
    nt, _, ny, nx = f.shape
    out = np.empty((nt, len(new), ny, nx))
    edge = np.zeros(out.shape, bool)
    for t in range(nt):
        for j in range(ny):
            for i in range(nx):
                out[t, :, j, i], edge[t, :, j, i] = column(p[t, :, j, i], f[t, :, j, i], new)
    return out, edge


@contextlib.contextmanager
def stand_in(here):
    """The script's directory with a stand-in for gridfill, away from the repository."""
    src = os.path.join(str(stage.REPO), HERE)
    shutil.copytree(os.path.join(src, "module"), os.path.join(here, "module"))
    shutil.copyfile(os.path.join(src, NAME), os.path.join(here, NAME))
    mods = {n: sys.modules.pop(n, None) for n in ("gridfill", "falwa.preprocessing", "logruns")}
    for k in [k for k in sys.path_importer_cache if "module" in k]:
        del sys.path_importer_cache[k]          # "./module/" of another scratch directory
    sys.modules["gridfill"] = FakeFill("gridfill")
    path, argv = list(sys.path), sys.argv
    level, handlers = logging.root.level, list(logging.root.handlers)
    try:
        yield
    finally:
        for h in list(logging.root.handlers):
            if h not in handlers:
                logging.root.removeHandler(h)
                h.close()
        logging.root.setLevel(level)
        sys.path[:], sys.argv = path, argv
        for n, m in mods.items():
            sys.modules.pop(n, None)
            if m is not None:
                sys.modules[n] = m


def values(mon, got, want, edge, what):
    """Interpolated where the column reaches; filled smoothly from its surroundings elsewhere."""
    if not mon.ok(got.shape == want.shape, "pressure-level-shape", got=got.shape, want=want.shape):
        return
    inside = ~np.isnan(want) & ~edge
    mon.close(got[inside], want[inside], "interpolated", rtol=1e-9, atol=1e-9, what=what)
    known = ~np.isnan(want).all(axis=(2, 3), keepdims=True) & np.ones(want.shape, bool)
    gaps = np.isnan(want) & ~edge & known
    if gaps.any():
        mon.count("checked:filled")
        mon.ok(np.isfinite(got[gaps]).all(), "gap-filled", left=int((~np.isfinite(got[gaps])).sum()))
        # values of a Poisson fill lie between the level's known ones (and the first guess)
        for t, k in np.argwhere(gaps.any(axis=(2, 3))):
            row = got[t, k][inside[t, k] | edge[t, k]]
            if row.size == 0:
                continue
            lo, hi = min(row.min(), 0.0), max(row.max(), 0.0)
            w = got[t, k][gaps[t, k]]
            mon.ok(w.min() >= lo - 0.2 * (hi - lo) - 1e-6 and w.max() <= hi + 0.2 * (hi - lo) + 1e-6, "gap-bounded",
                   level=int(k), got=[w.min(), w.max()], known=[lo, hi])


def topography(mon, topo, want, edge):
    mon.ok(topo.shape == want.shape, "topography", got=topo.shape)
    t = np.where(np.isnan(want), 0.0, 1.0)
    g = np.where(np.isnan(topo), 0.0, topo)
    mon.equal(g[~edge], t[~edge], "topography")


def attributes(mon, out, ds, name, new):
    a = out[name].attrs
    for k, v in ds[name].attrs.items():
        mon.ok(a.get(k) == v, "attributes", name=name, key=k, got=a.get(k), want=v)
    mon.ok(name in str(a.get("description")), "attributes", name=name, got=a.get("description"))
    mon.ok(out[name].dims == ("time", "plev", "lat", "lon"), "dims", got=out[name].dims)
    mon.equal(out["plev"].values, new, "levels")
    mon.ok(out["plev"].attrs.get("units") == "hPa", "levels", attrs=out["plev"].attrs)
    for c in ("lat", "lon"):
        mon.equal(out[c].values, ds[c].values, "coordinates", name=c)
        mon.ok(out[c].attrs.get("units") == ds[c].attrs["units"], "coordinates", name=c)
    mon.close(out["PS"].values, ds["PS"].values, "surface-pressure", rtol=1e-12)


def functions(r, mon, here):
    m = runpy.run_path(os.path.join(here, NAME), run_name="conversion")
    nlev, nt = int(r.integers(5, 20)), int(r.integers(1, 4))
    ny, nx = int(r.integers(4, 9)), int(r.integers(4, 9))
    names = list(r.permutation(["U", "V", "T"])[:int(r.integers(1, 3))])
    ds, p = dataset(r, nlev, nt, ny, nx, names)
    keep = ds.copy(deep=True)
    new = np.sort(r.choice(np.concatenate([ERA5, r.uniform(5, 1010, 10)]), int(r.integers(1, 14)), replace=False))
    if r.random() < 0.3:
        new = new[::-1].copy()
    if r.random() < 0.2:
        new[0] = p[0, 2, 1, 1]            # exactly on a level of a column
    asked = new.copy()
    out, order = m["similar_xarray_dataset"](ds, new, "plev")
    mon.ok(list(order) == ["time", "plev", "lat", "lon"], "dims", got=list(order))
    mon.ok(out.attrs == keep.attrs, "attributes", got=out.attrs)
    mon.ok(not {"lev", "ilev", "nbnd"} & set(out.sizes), "dims", got=dict(out.sizes))
    for name in names:
        lines = []
        log = lambda s: lines.append(str(s))
        topo_wanted = bool(r.random() < 0.6)
        f = ds[name].values
        m["vertical_interpolation_to_pressure"].__globals__.setdefault("logging_object", None)
        got, topo, levels = m["vertical_interpolation_to_pressure"](
            ds=ds, variable=f, save_topography=topo_wanted, logging_method=log, new_lev=new, var=name)
        want, edge = expected(p, keep[name].values, asked)
        mon.equal(levels, asked, "levels")
        values(mon, np.asarray(got), want, edge, name)
        mon.ok((topo is not None) == topo_wanted, "topography", asked=topo_wanted)
        if topo_wanted and topo is not None:
            topography(mon, np.asarray(topo), want, edge)
        mon.ok(any(s.startswith(name + " ") for s in lines), "log-names-variable", lines=lines[-3:], name=name)
        out = m["update_new_variable_to_pressure"](name, got, ds, out, default_attrs=None, new_coordinate_system=order)
        mon.equal(out[name].values, got, "stored")
        attributes(mon, out, keep, name, asked)
        if topo_wanted and topo is not None:
            out = m["update_new_variable_to_pressure"]("topo", topo, ds, out, default_attrs={}, new_coordinate_system=order)
            mon.ok(out["topo"].dims == ("time", "plev", "lat", "lon"), "dims")
            mon.ok("topo" in str(out["topo"].attrs.get("description")), "attributes", got=out["topo"].attrs)
    # the model's dataset is only read
    for n in keep.variables:
        mon.equal(ds[n].values, keep[n].values, "inputs-untouched", name=n)
        mon.ok(ds[n].attrs == keep[n].attrs, "inputs-untouched", name=n, got=ds[n].attrs)


def script(r, mon, here):
    """The script as a user runs it."""
    import xarray as xr
    name = str(r.choice(["U", "V", "T"]))
    ds, p = dataset(r, int(r.integers(6, 16)), int(r.integers(1, 3)), int(r.integers(4, 7)), int(r.integers(4, 7)), ["U", "V", "T"])
    os.makedirs("NorESM_data_sample")
    ds.to_netcdf("NorESM_data_sample/cesm_10tslices.nc")
    sys.argv = [NAME] + ([name] if name != "U" or r.random() < 0.5 else [])
    with contextlib.redirect_stdout(io.StringIO()):
        runpy.run_path(os.path.join(here, NAME), run_name="__main__")
    mon.count("script:run")
    path = "%s_poisson_filled" % name
    if not mon.ok(os.path.isfile(path), "file-written", there=os.listdir(".")):
        return
    new = np.array(ERA5[::-1])
    with xr.open_dataset(path, decode_times=False) as out:
        want, edge = expected(p, ds[name].values, new)
        values(mon, out[name].values, want, edge, name)
        attributes(mon, out, ds, name, new)
        mon.ok(out.sizes["time"] == ds.sizes["time"], "dims")
        if name == "U":
            mon.ok("topo" in out, "topography")
            topography(mon, out["topo"].values, want, edge)
        else:
            mon.ok("topo" not in out, "topography")


def run(case, mon):
    r = gen.rng_of(case["seed"], 32)
    mon.nontrivial(case["seed"])
    with scratch() as here, stand_in(here), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            (script if case["kind"] == "script" else functions)(r, mon, here)
        except Exception as e:
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            if any(f.filename.endswith(NAME) for f in tb):
                return mon.ok(False, "script-runs", error=repr(e)[:300], line=[f.lineno for f in tb if f.filename.endswith(NAME)][-1])
            raise
