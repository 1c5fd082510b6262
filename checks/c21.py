"""integrate_budget: the integrated budget closes, over any stretch and spacing of time."""
import numpy as np
import xarray as xr

from vf import gen, qg, xrg

ID = "C21"
RULE = ("random budget datasets (1-12 irregular times, further dimensions, names, time resolutions, outputs of real "
        "pipelines) integrated and compared with a trapezoid sum in seconds, term by term; distinct = dataset")
MIN = {"checked:integral": 500, "checked:closure": 150, "checked:additive": 50, "budgets:irregular": 50}

NAMES = ["lwa_baro", "convergence_zonal_advective_flux", "divergence_eddy_momentum_flux", "meridional_heat_flux"]
TIMES = ["time", "date", "datetime", "valid_time"]


def cases(tier, seed):
    n = 500 if tier == "quick" else 20000
    return [dict(seed=int(seed * 1009 + i), real=bool(i % 25 == 0)) for i in range(n)]


def times(r, n, res):
    if r.random() < 0.4:
        step = np.full(max(n - 1, 0), int(r.choice([1, 3, 6, 24])))
    else:
        step = r.integers(1, 48, max(n - 1, 0))
    if res in ("s", "ms", "us", "ns"):
        secs = 3600 if r.random() < 0.5 else int(r.choice([1, 7, 60, 90, 420, 1000, 12345]))
        u = np.timedelta64(secs, "s")
        if res != "s" and r.random() < 0.15:
            u = np.timedelta64(int(r.choice([1, 250, 1500, 37123])), "ms")
        t0 = np.datetime64("2016-02-27T06:00:00", res)
    else:
        u = np.timedelta64(1, "D")
        t0 = np.datetime64("2016-02-27", res)
    off = np.concatenate([[0], np.cumsum(step)]).astype("int64")
    order = r.random()
    if order < 0.08:
        off = off[::-1]
    elif order < 0.12:
        off = r.permutation(off)
    return (t0 + off * u).astype(f"datetime64[{res}]")


def run(case, mon):
    r = gen.rng_of(case["seed"], 21)
    X = xrg.qgdataset()
    n = int(r.integers(1, 13))
    res = str(r.choice(["ns", "ns", "s", "ms", "us", "D"]))
    t = times(r, n, res)
    tn = str(r.choice(TIMES))
    var_names = {}
    if case["real"]:
        c = dict(seed=case["seed"], cls="QGFieldNH18", flavor="gentle", nh=bool(r.random() < 0.5), on_grid=False,
                 lo=13, hi=17, kmax=7)
        w = xrg.Weather(c, r, dims=["time"], maxn=3)
        d = w.d
        da = [xr.DataArray(w.stacked(i), dims=("time", "lev", "lat", "lon"),
                           coords={"time": w.coords["time"], "lev": d["plev"], "lat": d["ylat"], "lon": d["xlon"]}, name=k)
              for i, k in enumerate("uvt")]
        q = X.QGDataset(xr.Dataset({x.name: x for x in da}),
                        qgfield_kwargs=dict(d["kw"], northern_hemisphere_results_only=c["nh"]))
        q.interpolate_fields(return_dataset=False)
        try:
            q.compute_reference_states(return_dataset=False)
        except ValueError:
            mon.count("nonconvergent")
            return
        ds = q.compute_lwa_and_barotropic_fluxes()
        tn, names, t = "time", dict(zip(NAMES, NAMES)), w.coords["time"]
        mon.count("budgets:real")
    else:
        names = {}
        for k in NAMES:
            names[k] = k
            if r.random() < 0.25:
                names[k] = var_names[k] = k[:4] + "_mine"
        if r.random() < 0.2:
            tn = var_names["time"] = "when"
        ny, nx = int(r.integers(2, 7)), int(r.integers(2, 9))
        dims = [tn, "ylat", "xlon"]
        sizes = {tn: n, "ylat": ny, "xlon": nx}
        if r.random() < 0.4:
            dims.insert(int(r.integers(0, 2)), "member")
            sizes["member"] = int(r.integers(1, 4))
        if r.random() < 0.2:
            r.shuffle(dims)
        coords = {tn: t, "ylat": np.linspace(0, 90, ny), "xlon": np.arange(nx) * 10.0}
        if "member" in sizes:
            coords["member"] = np.arange(sizes["member"]) * 3
        big = {"lwa_baro": 60.0, NAMES[1]: 1e-4, NAMES[2]: 2e-5, NAMES[3]: 3e-5}
        ds = xr.Dataset({names[k]: (dims, big[k] * r.standard_normal([sizes[x] for x in dims])) for k in NAMES},
                        coords=coords, attrs={"protocol": "QGFieldNH18", "dz": 1000.0, "mine": "kept"})
        if var_names and r.random() < 0.5:   # decoys under the default names
            ds = ds.assign({k: ds[names[k]] * 0 + 7 for k in var_names if k in NAMES})
    kw = {"var_names": dict(var_names)} if var_names else {}
    keep = ds.copy(deep=True)
    out = X.integrate_budget(ds, **kw)
    sec = (t - t[0]) / np.timedelta64(1, "s")
    steps = np.diff(sec)
    if steps.size > 1 and not np.allclose(steps, steps[0]):
        mon.count("budgets:irregular")
    parts = {}
    for k in NAMES:
        x = ds[names[k]]
        ax = x.dims.index(tn)
        a = np.moveaxis(x.values, ax, 0).astype(float)
        rest = tuple(z for z in x.dims if z != tn)
        if k == "lwa_baro":
            name, want = "delta_lwa", a[-1] - a[0]
        else:
            name = "integrated_" + k
            want = sum(((a[i + 1] + a[i]) / 2 * steps[i] for i in range(len(steps))), np.zeros(a.shape[1:]))
        got = out[name]
        mon.ok(got.dims == rest, "dims", name=name, got=got.dims, want=rest)
        mon.close(got.transpose(*rest).values, want, "integral", atol=1e-10 * (np.abs(want).max() + 1e-30), name=name,
                  times=[str(z) for z in t])
        for z in rest:
            mon.equal(got[z].values, ds[z].values, "coords", coord=z)
        parts[name] = got.transpose(*rest).values
    want = parts["delta_lwa"] - sum(parts["integrated_" + k] for k in NAMES[1:])
    got = out["residual"]
    scale = max(np.abs(x).max() for x in parts.values()) + 1e-30
    mon.close(got.transpose(*rest).values, want, "closure", atol=1e-12 * scale)
    mon.ok(set(out.data_vars) == set(parts) | {"residual"}, "variables", got=sorted(out.data_vars))
    for k, x in ds.attrs.items():
        mon.ok(out.attrs.get(k) == x, "attrs", name=k)
    mon.close(float(out.attrs["integration_seconds"]), float(sec[-1]), "seconds", atol=1e-6, res=res)
    mon.ok(np.datetime64(out.attrs["integration_start"]) == t[0] and np.datetime64(out.attrs["integration_stop"]) == t[-1],
           "interval", got=[out.attrs["integration_start"], out.attrs["integration_stop"]])
    mon.ok(ds.identical(keep), "input-untouched")
    # two stretches that share their joint add up to the whole
    if t.size > 2:
        m = int(r.integers(1, t.size - 1))
        a = X.integrate_budget(ds.isel({tn: slice(0, m + 1)}), **kw)
        b = X.integrate_budget(ds.isel({tn: slice(m, None)}), **kw)
        for k in out.data_vars:
            mon.close((a[k] + b[k]).values, out[k].values, "additive", atol=1e-10 * scale, name=k)
    if not case["real"]:
        k = NAMES[int(r.integers(4))]
        mon.raises(KeyError, lambda: X.integrate_budget(ds, var_names=dict(var_names, **{k: "nowhere"})), "refused")
        mon.raises(KeyError, lambda: X.integrate_budget(
            ds[[names[z] for z in NAMES if z != k]].drop_vars(k, errors="ignore")), "refused")
    mon.nontrivial((case["seed"], n))
    mon.sample({"times": [str(z) for z in t], "names": names, "seconds": float(sec[-1])})
