"""QGDataset: labels, coordinates and recorded settings are those of the values."""
import numpy as np
import xarray as xr

from vf import gen, qg, xrg
from checks.c19 import VARS, settings

ID = "C20"
RULE = ("outputs of QGDataset over random datasets (see C19): dimensions, coordinates, attributes of every variable and "
        "refusal of datasets with one defect; distinct = dataset")
MIN = {"checked:dims": 1000, "checked:coords": 2000, "checked:attrs": 200, "checked:refused": 300,
       "checked:value-at-label": 50}

ZYX = ("height", "ylat", "xlon")
CORE = {n: ZYX for n in qg.FIELDS_INTERP + qg.FIELDS_LAYER}
CORE.update({n: ("height", "ylat") for n in qg.FIELDS_REF})
CORE.update({n: ("ylat", "xlon") for n in qg.FIELDS_BARO})
CORE.update({n: ("height",) for n in ("static_stability", "static_stability_n", "static_stability_s")})


def cases(tier, seed):
    n = 200 if tier == "quick" else 6000
    out = qg.grid_cases(seed + 201, n, parities=("odd", "odd", "even", "offset"), flavors=["gentle", "jet"])
    for c in out:
        if c.get("hi", 0) > 40:
            for k in ("lo", "hi", "kmax", "nlon"):
                c.pop(k)
    return out


def refused(mon, X, w, r, mk):
    """One defect at a time."""
    nm = w.nm
    u, v, t = w.das
    full = xr.Dataset({x.name: x for x in w.das})
    names = {k: nm[k] for k in nm}
    lat, lev, lon = nm["ylat"], nm["plev"], nm["xlon"]
    bad = [
        ("no v", lambda: mk(full.drop_vars(v.name), var_names=names)),
        ("no t", lambda: mk(full.drop_vars(t.name), var_names=names)),
        ("no u", lambda: mk(full.drop_vars(u.name), var_names=names)),
        ("named variable absent", lambda: mk(full, var_names=dict(names, v="nowhere"))),
        ("named coordinate absent", lambda: mk(full, var_names=dict(names, ylat="nowhere"))),
        ("order of dimensions", lambda: mk(full.transpose(..., lat, lon, lev), var_names=names)),
        ("latitude before level", lambda: mk(full.transpose(..., lat, lev, lon), var_names=names)),
        ("v on other latitudes", lambda: mk(u, v.assign_coords({lat: v[lat] + 0.5}), t, var_names=names)),
        ("t on other levels", lambda: mk(u, v, t.assign_coords({lev: t[lev] * 1.01}), var_names=names)),
        ("v lacks rows", lambda: mk(u, v.isel({lat: slice(1, None)}), t, var_names=names)),
        ("t has another order of dimensions", lambda: mk(u, v, t.transpose(..., lon, lat, lev), var_names=names)),
        ("not labelled", lambda: mk(u.values, v.values, t.values, var_names=names)),
        ("only u", lambda: mk(u, var_names=names)),
    ]
    if w.dims:
        n = w.dims[0]
        bad.append(("empty", lambda: mk(full.isel({n: slice(0, 0)}), var_names=names)))
        bad.append(("v lacks a dimension", lambda: mk(u, v.isel({n: 0}, drop=True), t, var_names=names)))
        if w.shape[0] > 1:
            bad.append(("v has other times", lambda: mk(u, v.isel({n: slice(1, None)}), t, var_names=names)))
        bad.append(("further dimension last", lambda: mk(full.transpose(..., n), var_names=names)))
    for i in r.permutation(len(bad))[:5]:
        what, fn = bad[int(i)]
        mon.raises((AssertionError, KeyError, ValueError, TypeError, AttributeError), fn, "refused", what=what,
                   dims=w.dims_in)


def run(case, mon):
    r = gen.rng_of(case["seed"], 20)
    w = xrg.Weather(case, r, maxn=3)
    d = w.d
    pos, kwd, des = w.dress(r)
    args, kw = settings(case, d, r)
    more = {}
    if case["cls"] == "QGFieldNH18":
        more = {"tol": float(r.choice([1e-5, 2e-5])), "rjac": float(r.choice([0.95, 0.93]))}
        if r.random() < 0.4:
            more["npart"] = int(r.choice([20, 45]))
    kw.update(more)
    if not args and r.random() < 0.5:
        more["maxit"] = kw["maxit"] = 90000
    X = xrg.qgdataset()

    def mk(*a, **k):
        return X.QGDataset(*a, qgfield=qg.cls_of(case["cls"]), qgfield_args=args or None, qgfield_kwargs=kw, **k)

    refused(mon, X, w, r, mk)
    ds = mk(*pos, **kwd)
    nlat = d["ylat"].size
    nh = d["ylat"][-(nlat // 2 + nlat % 2):]
    refy = nh if case["nh"] else d["ylat"]
    z = qg.heights(d)
    wanted = {"kmax": d["kmax"], "dz": d["dz"], "maxit": 100000, "tol": 1e-5, "npart": nlat + (nlat + 1) % 2, "rjac": 0.95,
              "scale_height": d["H"], "cp": d["cp"], "dry_gas_constant": d["R"], "omega": d["om"],
              "planet_radius": d["a"], "protocol": case["cls"],
              "prefactor": float(sum(np.exp(-k * d["dz"] / d["H"]) * d["dz"] for k in range(1, d["kmax"] - 1)))}
    wanted.update(more)

    def attrs(a):
        for k, x in wanted.items():
            if k not in a:
                mon.ok(False, "attrs", name=k, got=sorted(a))
            elif isinstance(x, str):
                mon.ok(a[k] == x, "attrs", name=k, got=a[k], want=x)
            else:
                mon.close(float(a[k]), float(x), "attrs", rtol=1e-7, name=k)
        mon.ok("falwa" in str(a.get("package", "")), "attrs", name="package", got=a.get("package"))

    def labels(da, name):
        core = CORE[name]
        mon.ok(da.dims == w.dims + core, "dims", name=name, got=da.dims, want=w.dims + core)
        mon.ok(da.name == name, "dims", name=name, got=da.name)
        ys = d["ylat"] if name in qg.FIELDS_INTERP else refy
        for c, x in (("height", z), ("ylat", ys), ("xlon", d["xlon"])):
            if c in core:
                mon.close(da[c].values, x, "coords", rtol=1e-7, name=name, coord=c)
                mon.ok(da[c].dims == (c,), "coords", name=name, coord=c)
        for c in w.dims:
            mon.equal(da[c].values, w.coords[c], "coords", name=name, coord=c)

    def dataset(out, names):
        mon.ok(isinstance(out, xr.Dataset), "dataset", got=str(type(out)))
        attrs(out.attrs)
        for n in names:
            labels(out[n], n)

    def stability(a, st):
        """A profile belongs to the hemisphere in its name."""
        own = w.fields(case["cls"], qg.extra_of(case))[0]
        own.interpolate_fields(return_named_tuple=False)
        p = own.static_stability
        for n, x in zip(st, (p,) if len(st) == 1 else p[::-1]):
            mon.close(w.label(a[n], 0).values, x, "stability-of-its-hemisphere", rtol=1e-8, name=n)

    try:
        a = ds.interpolate_fields()
        st = ["static_stability"] if case["cls"] == "QGFieldNH18" or case["nh"] else ["static_stability_n", "static_stability_s"]
        dataset(a, VARS["interp"] + st)
        stability(a, st)
        attrs(ds.attrs)
        b = ds.compute_reference_states()
        dataset(b, VARS["ref"])
        steps = ["only", "baro", "layer"]
        r.shuffle(steps)
        got = {}
        for s in steps[:2]:
            fn = {"only": ds.compute_lwa_only, "baro": ds.compute_lwa_and_barotropic_fluxes,
                  "layer": ds.compute_layerwise_lwa_fluxes}[s]
            got[s] = fn()
            dataset(got[s], VARS[s])
    except ValueError as e:
        if "converge" not in str(e):
            raise
        mon.count("nonconvergent")
        return
    # outputs of one grid can be combined: labels of different outputs agree with each other
    allv = xr.merge([b] + [got[s] for s in got], compat="override", combine_attrs="override", join="exact")
    mon.ok(allv.sizes["ylat"] == refy.size, "merge", got=dict(allv.sizes))
    # a value of the output carries the labels it had in the input
    for _ in range(4):
        i = int(r.integers(len(w.states)))
        jy, jx = int(r.integers(nlat)), int(r.integers(d["xlon"].size))
        if nlat % 2 and case["on_grid"]:
            kz = int(r.integers(d["kmax"]))
            sel = {n: w.coords[n][j] for n, j in zip(w.dims, w.index[i])}
            src = w.das[0].sel({**sel, w.nm["plev"]: d["plev"][kz], w.nm["ylat"]: d["ylat"][jy],
                                w.nm["xlon"]: d["xlon"][jx]})
            out = a["interpolated_u"].sel({**sel, "ylat": d["ylat"][jy], "xlon": d["xlon"][jx]}).sel(
                height=z[kz], method="nearest")
            mon.close(float(out), float(src), "value-at-label", atol=1e-9, sel=sel)
    mon.nontrivial((case["seed"], des))
    mon.sample({"case": case, "dims": w.dims, "des": des})
