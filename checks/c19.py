"""QGDataset: every atmosphere in a labelled dataset gets the results of its own QGField."""
import numpy as np
import xarray as xr

from vf import gen, qg, relate, xrg

ID = "C19"
RULE = ("datasets of 1-6 atmospheres over 0-3 further dimensions (time, member, scenario...), latitude and pressure in "
        "either order, names, forms of input and memory orders varied, against one QGField per atmosphere made by hand; "
        "distinct = dataset")
MIN = {"checked:entry": 1000, "datasets:several": 30, "datasets:flipped": 30, "checked:forced": 50,
       "forcings:reordered": 4}

VARS = {"interp": qg.FIELDS_INTERP, "ref": qg.FIELDS_REF, "baro": qg.FIELDS_BARO + ["lwa"],
        "only": ["lwa_baro", "u_baro", "lwa"], "layer": qg.FIELDS_LAYER}


def cases(tier, seed):
    n = 240 if tier == "quick" else 6000
    out = qg.grid_cases(seed + 191, n, parities=("odd", "odd", "even", "offset"), flavors=["jet", "gentle", "noise"])
    for c in out:
        if c.get("hi", 0) > 40:
            for k in ("lo", "hi", "kmax", "nlon"):
                c.pop(k)
    return out


def settings(case, d, r):
    """The same constructor settings once as qgfield_kwargs, once partly positional."""
    kw = dict(d["kw"])
    kw.update(qg.extra_of(case))
    args = ()
    if not case["on_grid"] and r.random() < 0.4:
        args = (kw.pop("kmax"), kw.pop("maxit", 100000), kw.pop("dz"))
    return args, kw


def labelled(w, r, arrays, dims, coords):
    a = np.stack(arrays).reshape(w.shape + arrays[0].shape)
    da = xr.DataArray(a, dims=w.dims + dims, coords=dict(w.coords, **coords))
    if w.dims and r.random() < 0.5:     # entries are matched by label
        n = w.dims[int(r.integers(len(w.dims)))]
        da = da.isel({n: r.permutation(w.shape[w.dims.index(n)])})
    return da


def run(case, mon):
    r = gen.rng_of(case["seed"], 19)
    w = xrg.Weather(case, r)
    d = w.d
    pos, kwd, des = w.dress(r)
    before = [np.array(x.values) for x in w.das]
    args, kw = settings(case, d, r)
    X = xrg.qgdataset()
    if case["cls"] != "QGFieldNH18" or r.random() < 0.5:
        kwd["qgfield"] = qg.cls_of(case["cls"])
    ds = X.QGDataset(*pos, qgfield_args=args or None, qgfield_kwargs=kw, **kwd)
    own = w.fields(case["cls"], qg.extra_of(case))
    mon.ok(len(ds.fields) == len(own), "count", got=len(ds.fields), want=len(own))
    even = d["ylat"].size % 2 == 0
    own_f = [None] * len(own)
    ctx = {}

    def context(i):
        """Another memory order may round differently: what that can do to the results of atmosphere i."""
        if i not in ctx:
            u, v, t = w.states[i]
            di = dict(d, u=u, v=v, t=t)
            p = qg.grab(qg.run(case["cls"], di, "layer", ncforce=own_f[i], **qg.extra_of(case)))
            ctx[i] = relate.Context(p, di, case, own_f[i])
        return ctx[i]

    def same(out, names, tag):
        for n in names:
            for i, f in enumerate(own):
                got, want = w.label(out[n], i).values, getattr(f, n)
                if got.shape == want.shape and np.array_equal(got, want, equal_nan=True):
                    mon.count("entries:bitwise")
                elif got.shape == want.shape and tag == "interp" and n != "qgpv":
                    mon.close(got, want, "entry-close:" + n, rtol=1e-10)
                elif got.shape == want.shape:
                    relate.compare(mon, "entry-close:" + n, n, got, want, context(i))
                mon.ok(got.shape == want.shape, "entry", name=n, i=i, at=tag, des=des, got=got.shape, want=want.shape)

    # interpolation
    out = ds.interpolate_fields()
    for f in own:
        f.interpolate_fields(return_named_tuple=False)
    same(out, VARS["interp"], "interp")
    for i, f in enumerate(own):
        s = f.static_stability
        if case["cls"] == "QGFieldNH18" or case["nh"]:
            mon.close(w.label(out["static_stability"], i).values, s, "stability", rtol=1e-8)
            mon.ok("static_stability_n" not in out, "stability", why="two profiles")
        else:
            mon.close(w.label(out["static_stability_s"], i).values, s[0], "stability", rtol=1e-8)
            mon.close(w.label(out["static_stability_n"], i).values, s[1], "stability", rtol=1e-8)
    # forcing
    nf = None
    forced = not even and r.random() < 0.6
    if forced:
        # strengths far apart: no rounding can make the forcing of another entry look like this one's
        heat = [r.standard_normal(d["u"].shape) * 1e-5 * 40.0 ** j for j in r.permutation(len(own))]
        nm = w.nm
        hd = (nm["plev"], nm["ylat"], nm["xlon"])
        hc = {nm["plev"]: d["plev"], nm["ylat"]: d["ylat"], nm["xlon"]: d["xlon"]}
        h = labelled(w, r, heat, hd, hc)
        # in the order of the wind fields, or in one of its own
        fz, fy = (des["flip_lev"], des["flip_lat"]) if r.random() < 0.5 else r.random(2) < 0.5
        h = h.isel({nm["plev"]: slice(None, None, -1)}) if fz else h
        h = h.isel({nm["ylat"]: slice(None, None, -1)}) if fy else h
        mon.count("heating:other-order", bool((fz, fy) != (des["flip_lev"], des["flip_lat"])))
        own_f[:] = [f.compute_ncforce_from_heating_rate(heating_rate=x) for f, x in zip(own, heat)]
        nf = ds.compute_ncforce_from_heating_rate(h)
        mon.ok(nf.name == "ncforce", "forced", name=nf.name)
        for i in range(len(own)):
            mon.close(w.label(nf, i).values, own_f[i], "forced", rtol=1e-7, i=i, des=des)
        if w.dims and r.random() < 0.8:
            n = w.dims[int(r.integers(len(w.dims)))]
            o = r.permutation(w.shape[w.dims.index(n)])
            nf = nf.isel({n: o})
            mon.count("forcings:reordered", bool((o != np.arange(o.size)).any()))
    # reference states
    for f in own:
        qg.solve(f)
    same(ds.compute_reference_states(), VARS["ref"], "ref")
    steps = ["only", "baro", "layer"]
    r.shuffle(steps)
    for s in steps:
        ret = bool(r.random() < 0.8)
        if s == "only":
            out = ds.compute_lwa_only(return_dataset=ret)
            for f in own:
                f.compute_lwa_only()
        elif s == "baro":
            out = ds.compute_lwa_and_barotropic_fluxes(ncforce=nf, return_dataset=ret)
            for f, x in zip(own, own_f):
                f.compute_lwa_and_barotropic_fluxes(ncforce=x, return_named_tuple=False)
        else:
            out = ds.compute_layerwise_lwa_fluxes(ncforce=nf, return_dataset=ret)
            for f, x in zip(own, own_f):
                f.compute_layerwise_lwa_fluxes(ncforce=x)
        if ret:
            mon.ok(set(out.data_vars) == set(VARS[s]), "variables", got=sorted(out.data_vars), at=s)
            same(out, VARS[s], s)
        else:
            mon.ok(out is None, "returns-nothing", at=s)
        # the properties of the collection report the same
        same({n: getattr(ds, n) for n in VARS[s]}, VARS[s], s + "-property")
    for x, b, n in zip(w.das, before, "uvt"):
        mon.equal(x.values, b, "input-untouched", name=n)
    if len(own) > 1:
        mon.count("datasets:several")
    if des["flip_lat"] or des["flip_lev"]:
        mon.count("datasets:flipped")
    mon.nontrivial((case["seed"], w.shape, des))
    mon.sample({"case": case, "dims": w.dims, "shape": w.shape, "dressed": des, "forced": forced})
