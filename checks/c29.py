"""Covariance maps, extracted snapshots, and filling of gaps."""
import os
import sys
import tempfile
import types

import numpy as np

from vf import gen

ID = "C29"
RULE = ("random series of maps through the covariance function (arrays and file variables), random files through the "
        "snapshot extraction, random fields with gaps through the gap filling (with a relaxation solver standing in for "
        "the absent gridfill package); distinct = case")
WATCHDOG = 300
MIN = {"checked:covariance": 150, "checked:snapshot": 40, "checked:filled": 40, "covariance:handle": 15}


def cases(tier, seed):
    n = 700 if tier == "quick" else 20000
    kinds = ["cov", "cov", "cov", "slice", "fill"]
    out = [dict(seed=int(seed * 1009 + i), kind=kinds[i % 5]) for i in range(n)]
    return out[:3] + [dict(seed=int(seed), kind="installed")] + out[3:]


def run(case, mon):
    r = gen.rng_of(case["seed"], 29)
    mon.nontrivial([case["seed"], case["kind"]])
    {"cov": covariance, "slice": snapshot, "fill": gaps, "installed": installed}[case["kind"]](r, mon)


def covariance(r, mon):
    from falwa import stat_utils
    t, ny, nx = int(r.integers(2, 40)), int(r.integers(1, 12)), int(r.integers(1, 14))
    s, o = float(r.choice([1.0, 1e-6, 1e4])), float(r.choice([0.0, 0.0, 30.0]))
    a = r.normal(size=(t, ny, nx)) * s + o
    k = r.random()
    if k < 0.2:
        b = a.copy()
    elif k < 0.4:
        b = -2.5 * a + 0.1 * s * r.normal(size=a.shape)
    elif k < 0.5:
        b = np.full(a.shape, 3.0)
    else:
        b = r.normal(size=a.shape) * s + o
    # packed data: whole numbers (of which the map of covariances is not one), and single precision in one or both
    kind = r.choice(["double", "double", "double", "whole", "single", "mixed"])
    if kind != "double":
        wide = 20.0 / max(np.abs(a).max(), np.abs(b).max())
        if kind == "whole":
            a, b = (np.rint(x * wide).astype(r.choice(["i2", "i4", "i8"])) for x in (a, b))
        else:
            a, b = a.astype("f4"), b.astype("f4") if kind == "single" else b
    mon.count("covariance:" + kind)
    x, y = a.astype(float), b.astype(float)
    da, b_ = x - x.mean(0), y
    want = (da * (b_ - b_.mean(0))).sum(0) / (t - 1)
    tol = (1e-12 if "f4" not in (a.dtype.str[1:], b.dtype.str[1:]) else 1e-6) * (np.abs(x).max() * np.abs(y).max()) * t + 1e-300
    if r.random() < 0.15:
        # the function only needs something that can be indexed: a variable of an open file
        import netCDF4
        with tempfile.TemporaryDirectory() as tmp:
            with netCDF4.Dataset(os.path.join(tmp, "f.nc"), "w") as f:
                for n, m in zip(("time", "lat", "lon"), a.shape):
                    f.createDimension(n, m)
                va = f.createVariable("a", a.dtype.str[1:], ("time", "lat", "lon"))
                vb = f.createVariable("b", b.dtype.str[1:], ("time", "lat", "lon"))
                va[:], vb[:] = a, b
                got = stat_utils.calculate_covariance(va, vb)
        mon.count("covariance:handle")
    else:
        ka, kb = a.copy(), b.copy()
        got = stat_utils.calculate_covariance(a, b)
        mon.equal(a, ka, "inputs-untouched")
        mon.equal(b, kb, "inputs-untouched")
    mon.close(got, want, "covariance", atol=tol)
    mon.close(stat_utils.calculate_covariance(b, a), got, "symmetric", atol=tol)
    var = stat_utils.calculate_covariance(a, a)
    mon.within(var, 0.0, np.inf, "variance-nonnegative")
    # the order of the snapshots, and where on the map a series sits, do not matter
    p = r.permutation(t)
    mon.close(stat_utils.calculate_covariance(a[p], b[p]), got, "order-of-snapshots", atol=tol)
    q = r.permutation(nx)
    mon.close(stat_utils.calculate_covariance(a[:, ::-1, q], b[:, ::-1, q]), got[::-1, q], "own-series", atol=tol)


def snapshot(r, mon):
    import xarray as xr
    from falwa import netcdf_utils
    t, ny, nx = int(r.integers(1, 9)), int(r.integers(2, 7)), int(r.integers(2, 9))
    time = np.datetime64("2016-02-27T00:00:00", "ns") + np.cumsum(r.integers(1, 40, t)).astype("timedelta64[h]")
    names = ["ua", "va", "ta"][:int(r.integers(1, 4))]
    dt = r.choice(["f8", "f4"])
    ds = xr.Dataset({n: (("time", "lat", "lon"), r.normal(size=(t, ny, nx)).astype(dt), {"units": "K"}) for n in names},
                    coords={"time": time, "lat": np.linspace(-90, 90, ny), "lon": np.arange(nx) * 10.0},
                    attrs={"title": "planet"})
    if r.random() < 0.5:
        ds["orography"] = (("lat", "lon"), r.normal(size=(ny, nx)))
    if r.random() < 0.3:
        ds[names[0]][0, 0, 0] = np.nan
    if r.random() < 0.3:        # packed on the disk
        ds[names[-1]].encoding = dict(dtype="i2", scale_factor=2.0 ** -12, add_offset=0.25, _FillValue=-32768)
        ds[names[-1]].values[:] = np.rint((ds[names[-1]].values - 0.25) * 4096.0) / 4096.0 + 0.25
        mon.count("snapshot:packed")
    if r.random() < 0.3:
        ds["flag"] = (("time", "lat", "lon"), r.integers(-9, 9, (t, ny, nx)).astype("i4"), {"long_name": "a flag"})
    if r.random() < 0.3:
        ds = ds.assign_coords(member=("time", np.arange(t) * 3), height=2.0)
    ds["lat"].attrs["units"] = "degrees_north"
    with tempfile.TemporaryDirectory() as tmp:
        src, out = os.path.join(tmp, "a.nc"), os.path.join(tmp, "b.nc")
        ds.to_netcdf(src)
        before = open(src, "rb").read()
        if r.random() < 0.3:
            sl = [0]
            netcdf_utils.extract_one_timeslice(src, out)
        else:
            sl = [int(i) for i in r.choice(t, size=int(r.integers(1, t + 1)), replace=False)]
            netcdf_utils.extract_one_timeslice(src, out, timeslice=sl)
        mon.ok(open(src, "rb").read() == before, "source-untouched")
        with xr.open_dataset(out) as f:
            got = f.load()
    mon.count("checked:snapshot")
    want = ds.isel(time=sl)
    mon.ok(set(got.variables) == set(want.variables), "snapshot-variables", got=list(got.variables))
    for n in want.variables:
        mon.ok(got[n].dims == want[n].dims, "snapshot-dims", name=n)
        if n != "time":
            mon.equal(got[n].values, want[n].values, "snapshot-values", name=n)
        else:
            mon.ok((got[n].values == want[n].values).all(), "snapshot-times", want=sl)
        mon.ok(got[n].attrs.get("units") == want[n].attrs.get("units"), "snapshot-attributes")
        mon.ok(got[n].attrs.get("long_name") == want[n].attrs.get("long_name"), "snapshot-attributes")
    mon.ok(got.attrs == want.attrs, "snapshot-attributes")


class FakeFill(types.ModuleType):
    """gridfill.fill as documented: relaxes the missing points of (grids) to the mean of their neighbours."""
    calls = []

    @classmethod
    def fill(cls, grids, xdim, ydim, eps, relax=.6, itermax=100, initzonal=False, initmean=False, cyclic=False,
             verbose=False):
        if not isinstance(grids, np.ma.MaskedArray):
            raise TypeError("grids must be a masked array")
        cls.calls.append(dict(itermax=itermax, verbose=verbose, eps=eps))
        g = np.moveaxis(grids, [ydim, xdim], [0, 1])
        miss = np.ma.getmaskarray(g)
        f = np.where(miss, 0.0, g.filled(0.0))
        done = False
        for _ in range(itermax):
            up = np.vstack([f[1:2], f[:-1]])
            dn = np.vstack([f[1:], f[-2:-1]])
            if cyclic:
                w, e = np.roll(f, 1, 1), np.roll(f, -1, 1)
            else:
                w, e = np.hstack([f[:, 1:2], f[:, :-1]]), np.hstack([f[:, 1:], f[:, -2:-1]])
            res = np.where(miss, 0.25 * (up + dn + w + e) - f, 0.0)
            f = f + relax * res * 1.5
            if np.abs(res).max() <= eps:
                done = True
                break
        return np.moveaxis(f, [0, 1], [ydim, xdim]), np.array([done])


def gaps(r, mon):
    mod = FakeFill("gridfill")
    old = sys.modules.get("gridfill")
    sys.modules["gridfill"] = mod
    sys.modules.pop("falwa.preprocessing", None)
    try:
        from falwa import preprocessing
        ny, nx = int(r.integers(4, 14)), int(r.integers(4, 18))
        if nx == ny:
            nx += 1
        y = np.linspace(-60, 60, ny)[:, None]
        x = np.arange(nx)[None, :] * 2 * np.pi / nx
        f = 20 * np.cos(np.deg2rad(y)) + 5 * np.cos(x + r.uniform(0, 6)) + 0.1 * r.normal(size=(ny, nx))
        k = r.random()
        miss = np.zeros((ny, nx), bool)
        if k < 0.8:
            miss = r.random((ny, nx)) < r.uniform(0.02, 0.4)
        if k > 0.6 and k < 0.8:
            miss[:, 0] = True            # a gap across the seam
        miss.flat[0] = False
        g = np.where(miss, np.nan, f)
        keep = g.copy()
        kw = dict(itermax=int(r.integers(50, 3000))) if r.random() < 0.5 else {}
        FakeFill.calls.clear()
        got = np.asarray(preprocessing.gridfill_each_level(g, **kw))
        mon.equal(g, keep, "inputs-untouched")
        mon.count("checked:filled")
        mon.ok(got.shape == g.shape, "filled-shape")
        mon.equal(got[~miss], f[~miss], "observed-kept")
        if not miss.any():
            mon.ok(not FakeFill.calls, "nothing-to-fill")
            return
        mon.ok(np.isfinite(got).all(), "all-filled")
        mon.ok(FakeFill.calls[0]["itermax"] == kw.get("itermax", 1000), "iterations-as-asked")
        if "itermax" not in kw:
            # a filled value is the mean of its neighbours, to a hundredth
            up, dn = np.vstack([got[1:2], got[:-1]]), np.vstack([got[1:], got[-2:-1]])
            res = np.abs(0.25 * (up + dn + np.roll(got, 1, 1) + np.roll(got, -1, 1)) - got)[miss].max()
            mon.ok(res <= 0.02, "filled-smoothly", residual=float(res))
        # the seam of longitudes is no boundary: rotating the field rotates the result
        s = int(r.integers(1, nx))
        rot = np.asarray(preprocessing.gridfill_each_level(np.roll(g, s, 1), **kw))
        mon.close(rot, np.roll(got, s, 1), "periodic", atol=1e-9)
    finally:
        sys.modules.pop("falwa.preprocessing", None)
        if old is not None:
            sys.modules["gridfill"] = old
        else:
            sys.modules.pop("gridfill", None)


MODULES = ["barotropic_field", "basis", "constant", "data_storage", "netcdf_utils", "oopinterface", "plot_utils", "preprocessing",
           "stat_utils", "utilities", "wrapper", "xarrayinterface", "legacy.beta_version"]
PROBE = """
import sys, types, importlib
sys.meta_path[:] = [f for f in sys.meta_path if "Mesonpy" not in type(f).__name__]
sys.path.insert(0, sys.argv[1])
g = types.ModuleType("gridfill"); g.fill = None; sys.modules["gridfill"] = g
for n in sys.argv[2:]:
    try:
        print(n, importlib.import_module("falwa." + n).__file__)
    except Exception as e:
        print(n, "ERROR", repr(e))
"""


def installed(r, mon):
    """An installation made from the tree has every module the documentation and the scripts name."""
    import subprocess
    from vf import stage
    env = stage.base_env()
    with tempfile.TemporaryDirectory() as tmp:
        bld, root = os.path.join(tmp, "build"), os.path.join(tmp, "root")
        log = os.path.join(tmp, "log")
        stage._run([stage.VENV_BIN + "/meson", "setup", bld, str(stage.REPO), "--buildtype=debug", "-Dfortran_args=-O0"], env, log)
        stage._run([stage.VENV_BIN + "/meson", "install", "-C", bld, "--destdir", root], env, log)
        home = [d for d, sub, _ in os.walk(root) if "falwa" in sub]
        if not mon.ok(len(home) == 1, "installed", where=home):
            return
        p = subprocess.run([stage.VENV_BIN + "/python", "-c", PROBE, home[0], *MODULES], env=env, capture_output=True, text=True,
                           cwd=tmp, timeout=100)
        seen = dict(l.split(" ", 1) for l in p.stdout.splitlines() if " " in l)
        for n in MODULES:
            mon.ok(seen.get(n, "").startswith(home[0]), "installed", module=n, got=seen.get(n, p.stderr[-200:]))
    mon.count("installation")
