"""hemisphere_to_globe: the missing hemisphere is the mirror image of the one at hand."""
import numpy as np
import xarray as xr

from vf import gen, qg, xrg

ID = "C22"
RULE = ("random hemispheric datasets (either hemisphere, ascending or descending latitude, further dimensions in any "
        "order, names) made global, every row compared; some of them taken through QGField; distinct = dataset")
MIN = {"checked:original": 500, "checked:mirror": 500, "checked:equator-once": 100, "checked:qgpv": 10,
       "globes:south": 50, "checked:no-latitude": 60, "checked:attributes": 200, "globes:descending": 50}


def cases(tier, seed):
    n = 500 if tier == "quick" else 20000
    return [dict(seed=int(seed * 1013 + i)) for i in range(n)]


def run(case, mon):
    r = gen.rng_of(case["seed"], 22)
    X = xrg.qgdataset()
    k, nx, ny = int(r.integers(2, 5)), int(r.integers(3, 9)), int(r.integers(3, 12))
    pos = np.concatenate([[0.0], np.cumsum(r.uniform(1, 9, ny - 1))])
    if r.random() < 0.6:
        pos = np.linspace(0, 90, ny)
    if r.random() < 0.2:
        pos[0] = float(r.choice([1e-6, -1e-6, 5e-5]))      # an equator that rounding moved
    south = bool(r.random() < 0.5)
    lat = -pos[::-1] if south else pos
    if r.random() < 0.25:      # whole degrees, or the precision of the file
        if r.random() < 0.5:
            pos = np.concatenate([[0], np.cumsum(r.integers(1, 9, ny - 1))])
        else:
            pos = pos.astype("f4").astype(float)
        lat = (-pos[::-1] if south else pos).astype(pos.dtype if pos.dtype.kind == "i" else "f4")
    down = bool(r.random() < 0.5)
    if down:
        lat = lat[::-1]
    yn, vn = xrg.pick(r, xrg.YLAT), xrg.pick(r, xrg.V)
    kw = {}
    if r.random() < 0.2:
        yn = "y"
        kw["ylat"] = yn
    if r.random() < 0.2:
        vn = "meridional"
        kw["v"] = vn
    have_v = r.random() < 0.85
    names = ["u", "t", "precip"] + ([vn] if have_v else [])
    if have_v and "v" in kw and r.random() < 0.5:
        names.append("v")          # not the wind: the user said so
    dims = ["time", "plev", yn, "xlon"][int(r.integers(0, 2)):]
    if r.random() < 0.3:
        r.shuffle(dims)
    sizes = {"time": 2, "plev": k, yn: ny, "xlon": nx}
    coords = {"time": np.array(["2001-01-01", "2001-01-02"], "datetime64[ns]"), "plev": 1000.0 - 90 * np.arange(k),
              yn: lat, "xlon": np.arange(nx) * 360.0 / nx}
    coords = {z: c for z, c in coords.items() if z in dims}
    data = {}
    for n in names:
        dd = [z for z in dims if not (n == "precip" and z == "plev")]
        data[n] = (dd, r.standard_normal([sizes[z] for z in dd]))
    if r.random() < 0.15:
        data["u"] = (data["u"][0], data["u"][1].astype("f4"))
    if r.random() < 0.2:       # gaps and whole numbers stay what they are
        data["t"][1][r.random(data["t"][1].shape) < 0.2] = np.nan
        data["precip"] = (data["precip"][0], r.integers(-50, 50, data["precip"][1].shape).astype(r.choice(["i2", "i4", "i8"])))
    if have_v and r.random() < 0.1:
        data[vn] = (data[vn][0], r.integers(-50, 50, data[vn][1].shape).astype("i4"))
    if r.random() < 0.4:       # what a file holds besides its fields
        coords["weight"] = (yn, np.abs(r.standard_normal(ny)))
        coords["run"] = 7
        data["co2"] = ("xlon", r.standard_normal(nx))
        data["projection"] = ((), 3)
        data["source"] = ("plev", np.array(["a", "b", "c", "d", "e"])[:k]) if r.random() < 0.5 else ((), "model")
    ds = xr.Dataset(data, coords=coords, attrs={"title": "hemisphere"})
    for n in names:
        ds[n].attrs["long_name"] = "the " + n
    keep = ds.copy(deep=True)
    given = ds.chunk() if r.random() < 0.1 else ds
    out = X.hemisphere_to_globe(given, **({"var_names": kw} if kw else {}))
    extras = {"co2", "projection", "source"} & set(data)
    mon.ok(set(out.variables) == set(ds.variables), "variables", got=sorted(out.variables), want=sorted(ds.variables))
    for n in extras:
        mon.ok(out[n].drop_vars("run", errors="ignore").identical(ds[n].drop_vars("run", errors="ignore")), "no-latitude",
               name=n, got=out[n].dims, want=ds[n].dims)
    if extras:
        mon.ok(out["weight"].dims == (yn,) and out["run"].dims == (), "auxiliary-coordinates", got=out["weight"].dims)
        w = dict(zip(np.abs(lat).tolist(), ds["weight"].values))
        mon.equal(out["weight"].values, [w[abs(float(x))] for x in out[yn].values], "auxiliary-coordinates")
    mon.ok(out.attrs == ds.attrs and all(out[n].attrs == ds[n].attrs for n in names), "attributes")
    y = out[yn].values
    mon.ok(y.size == 2 * ny - 1, "equator-once", got=y.size, want=2 * ny - 1)
    full = np.concatenate([-pos[:0:-1], pos]) if not south else np.concatenate([-pos[::-1], pos[1:]])
    mon.close(y, full[::-1] if down else full, "latitudes", atol=1e-12, south=south, down=down)
    for n in names:
        mon.ok(set(out[n].dims) == set(ds[n].dims) and out[n].dtype == ds[n].dtype, "dims", name=n, got=out[n].dims)
        o = out[n].transpose(*ds[n].dims)
        mon.equal(o.sel({yn: lat}).values, ds[n].values, "original", name=n, south=south, down=down)
        noeq = lat[1:] if abs(lat[0]) < 1e-3 else lat[:-1]
        s = -1.0 if n == vn and have_v else 1.0
        mon.equal(o.sel({yn: -noeq}).values, s * ds[n].sel({yn: noeq}).values, "mirror", name=n, south=south, down=down)
        for z in ds[n].dims:
            if z != yn:
                mon.equal(out[z].values, ds[z].values, "coords", coord=z)
    mon.ok(ds.identical(keep), "input-untouched")
    mon.count("globes:south", south)
    mon.count("globes:descending", down)
    if pos[0] == 0:
        drop = ds.isel({yn: slice(1, None)} if abs(lat[0]) < 1e-3 else {yn: slice(None, -1)})
        mon.raises(AssertionError, lambda: X.hemisphere_to_globe(drop, **({"var_names": kw} if kw else {})), "refused")
    # a first row near the equator is not the equator, however fine the grid
    gap = float(10.0 ** r.uniform(-2.5, 0.5)) * np.sign(lat[0] + lat[-1])
    near = ds.assign_coords({yn: lat + gap})
    mon.raises(AssertionError, lambda: X.hemisphere_to_globe(near, **({"var_names": kw} if kw else {})), "refused",
               gap=gap)
    mon.raises(KeyError, lambda: X.hemisphere_to_globe(ds.rename({yn: "somewhere"})), "refused")
    if case["seed"] % 8 == 0:
        analysed(case, mon, r, X)
    mon.nontrivial((case["seed"], south, down))
    mon.sample({"latitudes": lat, "names": names, "dims": dims})


def analysed(case, mon, r, X):
    """The QGPV of the made-up hemisphere is minus that of the real one."""
    d = gen.qg_case(case["seed"], "gentle", lo=17, hi=23, kmax=7)
    m = d["ylat"].size // 2
    south = bool(r.random() < 0.5)
    rows = slice(0, m + 1) if south else slice(m, None)
    c = {"plev": d["plev"], "lat": d["ylat"][rows], "lon": d["xlon"]}
    ds = xr.Dataset({n: (("plev", "lat", "lon"), d[n][:, rows]) for n in "uvt"}, coords=c)
    if r.random() < 0.5:
        ds = ds.isel(lat=slice(None, None, -1))
    q = X.QGDataset(X.hemisphere_to_globe(ds), qgfield=qg.cls_of(qg.CLASSES[int(r.integers(2))]), qgfield_kwargs=d["kw"])
    f = q.interpolate_fields()
    pv = f["qgpv"].values
    mon.close(f["ylat"].values, d["ylat"], "latitudes", atol=1e-9)
    n, s = pv[:, m + 2:], -pv[:, :m - 1][:, ::-1]
    mon.close(n, s, "qgpv", atol=5e-5 * np.abs(pv).max())
    u = f["interpolated_u"].values
    mon.close(u[:, m:], u[:, m::-1], "u-mirrored", atol=1e-9 * np.abs(u).max())
