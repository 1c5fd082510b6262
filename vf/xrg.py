"""Labelled (xarray) inputs for QGDataset: several atmospheres on one grid, in many disguises."""
import numpy as np
import xarray as xr

from . import gen, qg

PLEV = ["plev", "lev", "level", "isobaricInhPa", "pressure_level"]
YLAT = ["ylat", "lat", "latitude"]
XLON = ["xlon", "lon", "longitude"]
U, V, T = ["u", "U"], ["v", "V"], ["t", "T"]
OTHER = [[], ["time"], ["time"], ["time", "number"], ["member", "time"], ["date", "member", "run"], ["scenario"],
         ["step"], ["time", "step"], ["quantile"]]


def pick(r, names):
    return str(names[int(r.integers(len(names)))])


def other_coord(r, name, n):
    if name in ("time", "date"):
        step = r.choice([1, 6, 24])
        t = np.datetime64("2001-03-01T00", "ns") + np.arange(n) * np.timedelta64(int(step), "h")
        return t if r.random() < 0.7 else t[::-1] if r.random() < 0.5 else r.permutation(t)
    if name == "step":
        return (np.arange(n) * int(r.choice([90, 3600, 21600]))).astype("timedelta64[s]").astype("timedelta64[ns]")
    if name == "quantile":
        return r.permutation(np.arange(1, n + 1) / 10.0)
    if name == "scenario":
        return np.array(["ssp%d" % i for i in range(n)])[::-1]
    c = np.arange(n) * 2 + 1
    return c if r.random() < 0.6 else c[::-1] if r.random() < 0.5 else r.permutation(c)


class Weather:
    """nf atmospheres of one grid: the base of `case`, re-drawn for every index of the other dimensions."""

    def __init__(self, case, r, dims=None, maxn=6):
        self.case, self.d = case, qg.case_of(case)
        d = self.d
        k = r.random()
        if k < 0.35:        # longitudes from another meridian, and in the precision of the file
            x = d["xlon"] + float(r.choice([-180.0, 7.5, 0.25]))
            d["xlon"] = x.astype("f4") if k < 0.15 else x
        if dims is None:
            dims = OTHER[int(r.integers(len(OTHER)))]
        while True:
            shape = tuple(int(x) for x in r.integers(1, 4, len(dims)))
            if np.prod(shape, dtype=int) <= maxn:
                break
        self.dims, self.shape = tuple(dims), shape
        self.coords = {n: other_coord(r, n, s) for n, s in zip(dims, shape)}
        nf = int(np.prod(shape, dtype=int))
        self.states = [(d["u"], d["v"], d["t"])]
        for i in range(1, nf):
            s = gen.state(r, d["plev"], d["ylat"], d["xlon"], d["H"], d["R"] / d["cp"],
                          case.get("flavor", "jet"), d["R"])
            self.states.append(s)
        order = r.permutation(nf)
        self.states = [self.states[i] for i in order]
        self.index = list(np.ndindex(*shape)) if dims else [()]

    def fields(self, cls, extra, args=()):
        """What a user would do by hand: one object per atmosphere."""
        d = self.d
        out = []
        for u, v, t in self.states:
            kw = dict(d["kw"])
            kw.update(extra)
            out.append(qg.cls_of(cls)(d["xlon"], d["ylat"], d["plev"], u.copy(), v.copy(), t.copy(), *args, **kw))
        return out

    def stacked(self, i):
        a = np.stack([s[i] for s in self.states])
        return a.reshape(self.shape + a.shape[1:])

    def dress(self, r):
        """(positional arguments, keyword arguments, description) for QGDataset."""
        d = self.d
        des = {"flip_lat": bool(r.random() < 0.5), "flip_lev": bool(r.random() < 0.5)}
        nm = {"plev": pick(r, PLEV), "ylat": pick(r, YLAT), "xlon": pick(r, XLON),
              "u": pick(r, U), "v": pick(r, V), "t": pick(r, T)}
        var_names = {}
        for k in nm:
            if r.random() < 0.2:
                nm[k] = var_names[k] = {"plev": "pfull", "ylat": "y", "xlon": "x", "u": "ua", "v": "va", "t": "ta"}[k]
        if var_names and r.random() < 0.3:
            var_names.setdefault("u", nm["u"])      # naming what would have been found
        des["names"] = nm
        ylat = d["ylat"][::-1] if des["flip_lat"] else d["ylat"]
        plev = d["plev"][::-1] if des["flip_lev"] else d["plev"]
        dims = self.dims + (nm["plev"], nm["ylat"], nm["xlon"])
        coords = dict(self.coords)
        coords.update({nm["plev"]: plev, nm["ylat"]: ylat, nm["xlon"]: d["xlon"]})
        self.nm = nm
        self.dims_in = dims
        das = []
        scramble = r.random() < 0.3
        perm = r.permutation(len(dims))
        des["scrambled"] = bool(scramble)
        for i, key in enumerate("uvt"):
            a = self.stacked(i)
            if des["flip_lev"]:
                a = np.flip(a, -3)
            if des["flip_lat"]:
                a = np.flip(a, -2)
            da = xr.DataArray(a.copy(), dims=dims, coords=coords, name=nm[key], attrs={"units": "?"})
            if scramble:   # same labels, another order in memory
                mem = xr.DataArray(np.ascontiguousarray(a.transpose(perm)), dims=[dims[j] for j in perm], coords=coords,
                                   name=nm[key])
                da = mem.transpose(*dims)
            das.append(da)
        if r.random() < 0.3:    # labels nobody needs: of one value, of a further dimension, of the map
            free = {"expver": 5, "cell": ((nm["ylat"], nm["xlon"]), r.random((ylat.size, d["xlon"].size)))}
            if self.dims:
                free["verifying"] = (self.dims[0], np.arange(self.shape[0]) * 7)
            das = [x.assign_coords(free) for x in das]
            des["further labels"] = True
        form = ["dataset", "dataset", "arrays", "v-override", "t-override", "both-override", "t-dataset"][
            int(r.integers(7))]
        des["form"] = form
        u, v, t = das
        zero = xr.zeros_like
        if form == "dataset":
            args = (xr.Dataset({x.name: x for x in das}),)
        elif form == "arrays":
            args = (u.rename("north"), v.rename("by"), t.rename(None)) if r.random() < 0.5 else (u, v, t)
        elif form == "v-override":
            args = (xr.Dataset({u.name: u, v.name: zero(v), t.name: t}), v.rename("better"))
        elif form == "t-override":
            better = t.rename("better") if r.random() < 0.5 else xr.Dataset({t.name: t, u.name: zero(u)})
            args = (xr.Dataset({u.name: u, v.name: v, t.name: zero(t) + 250.0}), None, better)
        elif form == "both-override":
            args = (xr.Dataset({u.name: u, v.name: zero(v), t.name: zero(t) + 250.0}),
                    xr.Dataset({v.name: v, u.name: zero(u)}), t.rename("better"))
        else:
            args = (xr.Dataset({u.name: u}), xr.Dataset({v.name: v, "other": zero(v)}), xr.Dataset({t.name: t}))
        # what the user names wins over what would have been detected
        decoys = [k for k in "uvt" if k in var_names and var_names[k] != k]
        if decoys and r.random() < 0.6:
            a = args[0]
            if form in ("dataset", "v-override", "t-override", "both-override"):
                args = (a.assign({k: zero(u) for k in decoys}),) + args[1:]
                des["decoys"] = decoys
        for k in ("plev", "ylat"):
            if k in var_names and r.random() < 0.6:
                wrong = (nm[k], 100.0 + np.arange(das[0].sizes[nm[k]]))
                args = tuple(None if x is None else x.assign_coords({k: wrong}) for x in args)
                des["decoys"] = des.get("decoys", []) + [k]
        self.das = das
        des["lazy"] = bool(r.random() < 0.15)
        if des["lazy"]:
            args = tuple(None if x is None else x.chunk() for x in args)
        return args, ({"var_names": var_names} if var_names else {}), des

    def label(self, da, i, others=None):
        """The entry of an output for atmosphere i, found by its labels."""
        sel = {n: self.coords[n][j] for n, j in zip(self.dims, self.index[i])}
        return da.sel(sel) if sel else da


def qgdataset():
    import importlib
    return importlib.import_module("falwa.xarrayinterface")
