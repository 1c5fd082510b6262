"""The scripts that take files of atmospheres and write files of results."""
import ast
import contextlib
import io
import os
import runpy
import sys
import warnings

import numpy as np

from vf import gen, qg, stage
from vf.mon import Skip
from checks.c30 import Recorder, judge, panels, scratch

ID = "C33"
RULE = ("small files laid out as each script expects (either order of latitude and level), the script run as it is in a "
        "scratch directory (absolute paths led there), every value written compared with an analysis made by hand of "
        "that step's atmosphere; distinct = case")
MIN = {"script:budget": 4, "script:forcing": 4, "script:predigest": 2, "script:grl": 1, "script:season": 2, "season:all": 1, "figure-of-season": 6,
       "checked:written": 300, "checked:forcing-of-level": 12}
WATCHDOG = 240
ASSUMPTIONS = ["odd numbers of latitudes from pole to pole, as in the files the scripts were written for"]

KINDS = ["budget", "forcing", "season", "predigest", "budget", "forcing", "predigest", "grl"]


def cases(tier, seed):
    n = 32 if tier == "quick" else 1200
    out = [dict(seed=int(seed * 1031 + i), kind=KINDS[(i + i // 8) % 8], full=i % (32 if tier == "quick" else 96) == 2)
           for i in range(n)]
    for j, c in enumerate(c for c in out if c["kind"] == "season" and not c["full"]):
        c["drawn"] = j % 2 == 0
    return out


class Rows:
    """An atmosphere per step, and the file it is read from."""

    def __init__(self, r, nt, nlat, nlon, lat_down, lev_up, top=48000.0, flavor="jet", dtype="f4"):
        self.r, self.nt = r, nt
        self.ylat = np.linspace(-90, 90, nlat)
        self.ylat[nlat // 2] = 0.0
        self.xlon = np.arange(nlon) * 360.0 / nlon
        self.plev = np.asarray(gen.make_plev(r, top * 1.002, 7000.0), np.float32)
        self.lat_down, self.lev_up = lat_down, lev_up
        self.dtype = dtype
        self.steps = []
        for _ in range(nt):
            u, v, t = gen.state(r, self.plev.astype(float), self.ylat, self.xlon, 7000.0, 287.0 / 1004.0, flavor)
            self.steps.append(dict(u=u.astype(dtype), v=v.astype(dtype), t=t.astype(dtype),
                                   h=(1e-5 * r.standard_normal(u.shape)).astype(dtype)))
        self.packed = {}
        if r.random() < 0.3:        # whole numbers with a scale and an offset, as reanalyses are distributed
            for n in "uvth":
                lo, hi = (f(s[n].min() if f is min else s[n].max() for s in self.steps) for f in (min, max))
                scale, off = (float(hi) - float(lo)) / 65000.0 or 1.0, 0.5 * (float(hi) + float(lo))
                for s in self.steps:
                    s["i" + n] = np.rint((s[n].astype(float) - off) / scale).astype("i2")
                    s[n] = s["i" + n] * scale + off
                self.packed[n] = scale, off
        # even steps, or whatever times there are
        self.time = np.arange(nt) * 6 if r.random() < 0.4 else np.cumsum(r.integers(1, 30, nt))
        self.time = self.time + int(r.integers(0, 1000))
        if r.random() < 0.4:        # times of part of an hour or day
            self.time = self.time + r.choice([0.25, 0.5, 0.75, 0.125])
        self.units = "%s since %d-01-01 00:00:00" % (r.choice(["hours", "hours", "days", "minutes"]), r.integers(1900, 2000))
        self.calendar = str(r.choice(["gregorian", "gregorian", "standard", "noleap", "proleptic_gregorian"]))
        if r.random() < 0.3:
            self.xlon = self.xlon - 180.0

    def write(self, path, field, name, dims):
        import netCDF4
        os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
        tn, zn, yn, xn = dims
        z = self.plev[::-1] if self.lev_up else self.plev
        y = self.ylat[::-1] if self.lat_down else self.ylat
        with netCDF4.Dataset(path, "w") as f:
            for n, val in ((tn, self.time), (zn, z), (yn, y), (xn, self.xlon)):
                f.createDimension(n, len(val))
                var = f.createVariable(n, "i4" if n == tn and val.dtype.kind == "i" else "f8", (n,))
                var[:] = val
                if n == tn:
                    var.units = self.units
                    var.calendar = self.calendar
            pack = self.packed.get(field)
            var = f.createVariable(name, "i2" if pack else self.dtype, dims)
            if pack:
                var.scale_factor, var.add_offset = pack
                var.set_auto_maskandscale(False)
            for i, s in enumerate(self.steps):
                a = s["i" + field if pack else field]
                a = a[::-1] if self.lev_up else a
                a = a[:, ::-1] if self.lat_down else a
                var[i] = a

    def fields(self, cname, i, **kw):
        """The analysis by hand, of arrays in order and of the same arrays seen backwards."""
        s = self.steps[i]
        for back in (False, True):
            view = (lambda a: np.array(a[::-1, ::-1])[::-1, ::-1]) if back else np.array
            q = qg.cls_of(cname)(self.xlon, self.ylat, self.plev.astype(float), view(s["u"]), view(s["v"]), view(s["t"]), **kw)
            q.interpolate_fields(return_named_tuple=False)
            qg.solve(q)
            yield q


class Done(Exception):
    """The workload has no more files."""


@contextlib.contextmanager
def led_home(here, stop):
    """Absolute paths of the scripts lead to the scratch directory; stop(path) ends the run."""
    import dask
    import netCDF4
    import xarray
    real, realmf = netCDF4.Dataset, xarray.open_mfdataset

    def home(p):
        p = str(p)
        if stop is not None and stop(p):
            raise Done(p)
        return os.path.join(here, p.lstrip("/")) if p.startswith(("/pscratch/", "/mnt/")) else p

    class Led(real):
        def __init__(self, filename, *a, **k):
            p = home(filename)
            os.makedirs(os.path.dirname(os.path.abspath(p)), exist_ok=True)
            super().__init__(p, *a, **k)

    def open_mfdataset(paths, *a, **k):
        return realmf([home(p) for p in paths] if not isinstance(paths, str) else home(paths), *a, **k)

    netCDF4.Dataset, xarray.open_mfdataset = Led, open_mfdataset
    try:
        with dask.config.set(scheduler="synchronous"):
            yield
    finally:
        netCDF4.Dataset, xarray.open_mfdataset = real, realmf


def switched_on(path, name):
    """The script with a switch at its top turned on by hand; None if it has no such switch."""
    tree = ast.parse(open(path).read())
    for node in tree.body:
        if isinstance(node, ast.Assign) and [getattr(t, "id", None) for t in node.targets] == [name]:
            node.value = ast.copy_location(ast.Constant(True), node.value)
            return compile(tree, path, "exec")
    return None


def run_script(mon, name, here, argv=(), stop=None, ends_with=(), switch=None):
    """Runs a script of the repository as a user would; True if it came to its end."""
    path = os.path.join(str(stage.REPO), "scripts", name)
    old, oldpath = sys.argv, list(sys.path)
    sys.argv, code = [path, *map(str, argv)], None
    sys.path.insert(0, os.path.dirname(path))
    try:
        with led_home(here, stop), contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            code = switched_on(path, switch) if switch else None
            if code is None:
                runpy.run_path(path, run_name="__main__")
            else:
                mon.count("switch:" + switch)
                exec(code, {"__name__": "__main__", "__file__": path})
    except Done:
        pass
    except ends_with as e:
        mon.count("ended:" + type(e).__name__)
    except Exception as e:
        if "converge" in str(e):
            raise Skip("nonconvergent") from e
        return mon.ok(False, "script-runs", script=name, error=repr(e)[:300])
    finally:
        sys.argv, sys.path[:] = old, oldpath
    return True if code is None else "switched"


def read(path):
    import netCDF4
    with netCDF4.Dataset(path) as f:
        return {n: (np.ma.filled(v[:].astype(float) if v.dtype.kind == "f" else v[:], np.nan if v.dtype.kind == "f" else -999),
                    v.dimensions, {a: v.getncattr(a) for a in v.ncattrs()}) for n, v in f.variables.items()}


def same(mon, got, wants, what, step):
    """got is one of the acceptable arrays, up to single precision."""
    got = np.asarray(got)
    if not mon.ok(all(got.shape == np.shape(w) for w in wants), "written-shape", what=what, got=got.shape,
                  want=np.shape(wants[0])):
        return
    errs = []
    for w in wants:
        w = np.asarray(w, float)
        size = np.abs(w).max() + 1e-30
        errs.append(float(np.abs(got - w).max() / size) if np.isfinite(got).all() else np.inf)
    mon.count("checked:written", got.size // max(got.size, 1))
    mon.ok(min(errs) <= 2e-6, "written", what=what, step=step, error=min(errs))


SPEED, ACCELERATION, FLUX, RATE = ("m/s", "m s-1"), ("m/s2", "m/s**2", "m s-2"), ("m2/s2", "m**2/s**2", "m2 s-2"), ("1/s", "s-1")
UNITS = dict(qgpv=RATE, qref=RATE, interpolated_u=SPEED, interpolated_v=SPEED, uref=SPEED, ubar=SPEED, lwa=SPEED, fawa=SPEED,
             interpolated_theta=("K",), ptref=("K",), lwa_baro=SPEED, u_baro=SPEED, adv_flux_f1=FLUX, adv_flux_f2=FLUX,
             adv_flux_f3=FLUX, ua1=FLUX, ua2=FLUX, ep1=FLUX, ep2=FLUX, ep3=FLUX, ep4=ACCELERATION, adv_flux_conv=ACCELERATION,
             divergence_eddy_momentum_flux=ACCELERATION, meridional_heat_flux=ACCELERATION, ncforce_3D=ACCELERATION,
             latitude=("degrees_north",), longitude=("degrees_east",), levelist=("hPa",), height=("m",))


def units(mon, f):
    """Every quantity names its unit."""
    for n, (_, _, attrs) in f.items():
        if n in UNITS:
            mon.ok(attrs.get("units") in UNITS[n], "units-written", what=n, got=attrs.get("units"), want=UNITS[n][0])


def coordinates(mon, f, a, names):
    tn, zn, yn, xn = names
    units(mon, f)
    if zn:
        mon.close(f[zn][0], 1000.0 * np.exp(-np.arange(49) / 7.0), "levels-written", rtol=1e-5)
    mon.close(f[yn][0], a.ylat, "latitudes-written", atol=1e-4)
    mon.close(f[xn][0], a.xlon, "longitudes-written", atol=1e-3)
    if tn:
        mon.ok((np.asarray(f[tn][0]) == a.time).all(), "times-written")
    mon.ok(f["time"][2].get("units") == a.units and f["time"][2].get("calendar") == a.calendar, "times-written",
           attrs=f["time"][2])


WRITTEN = ["qgpv", "interpolated_u", "interpolated_v", "interpolated_theta", "qref", "uref", "ptref", "adv_flux_f1",
          "adv_flux_f2", "adv_flux_f3", "divergence_eddy_momentum_flux", "meridional_heat_flux", "lwa_baro", "u_baro", "lwa"]


def budget(r, mon, here):
    years = list(range(1980, 1980 + int(r.integers(2, 4))))
    os.makedirs("work")
    os.chdir("work")
    atm = {}
    for y in years:
        a = atm[y] = Rows(r, int(r.integers(1, 4)), int(r.integers(10, 16)) * 2 - 1, int(r.integers(4, 9)),
                          r.random() < 0.5, r.random() < 0.5)
        for n in "uvt":
            a.write("../%s/intp/%s.%d_plev.nc" % (n.upper(), n.upper(), y), n, n.upper(), ("time", "level", "lat", "lon"))
    if not run_script(mon, "lubis_et_al_2025/cal_lwa_budget_NHN22.py", here, ends_with=(FileNotFoundError,)):
        return
    for y in years:
        a = atm[y]
        out = "output.%d.nc" % y
        if not mon.ok(os.path.isfile(out), "file-written", name=out, there=os.listdir(".")):
            continue
        f = read(out)
        coordinates(mon, f, a, ("time", "levelist", "latitude", "longitude"))
        for i in range(a.nt):
            qs = list(a.fields("QGFieldNHN22", i, eq_boundary_index=5, northern_hemisphere_results_only=False))
            for q in qs:
                q.compute_lwa_and_barotropic_fluxes(return_named_tuple=False)
            for n in WRITTEN:
                same(mon, f[n][0][i], [getattr(q, n) for q in qs], n, (y, i))
            same(mon, f["adv_flux_conv"][0][i], [q.convergence_zonal_advective_flux for q in qs], "adv_flux_conv", (y, i))
    mon.count("script:budget")


def forcing(r, mon, here):
    years = list(range(1980, 1980 + int(r.integers(2, 4))))
    atm = {}
    for y in years:
        a = atm[y] = Rows(r, int(r.integers(1, 3)), int(r.integers(10, 16)) * 2 - 1, int(r.integers(4, 9)),
                          r.random() < 0.5, r.random() < 0.5)
        for n, d in (("U", "U"), ("V", "V"), ("T", "T"), ("DTDTMST", "DTDTMST")):
            a.write(os.path.join(here, "pscratch/sd/s/slubis/MERRA2/%s/intp/%s.%d_plev.nc" % (d, n, y)),
                    dict(U="u", V="v", T="t", DTDTMST="h")[n], n, ("time", "level", "lat", "lon"))
    if not run_script(mon, "lubis_et_al_2025/cal_ncforce_loop.py", here, ends_with=(FileNotFoundError,)):
        return
    for y in years:
        a = atm[y]
        out = "ncforce_3D.%d.nc" % y
        if not mon.ok(os.path.isfile(out), "file-written", name=out, there=os.listdir(".")):
            continue
        f = read(out)
        coordinates(mon, f, a, ("time", "levelist", "latitude", "longitude"))
        for i in range(a.nt):
            got = f["ncforce_3D"][0][i]
            w = np.exp(-np.arange(49) / 7.0) * 1000.0
            wants, levels = [], []
            ks = r.choice(np.arange(1, 48), 3, replace=False)
            for q in a.fields("QGFieldNHN22", i, eq_boundary_index=5, northern_hemisphere_results_only=False):
                h = a.steps[i]["h"]
                force = np.asarray(q.compute_ncforce_from_heating_rate(heating_rate=np.array(h)))
                q.compute_lwa_and_barotropic_fluxes(return_named_tuple=False, ncforce=force)
                wants.append(np.array(q.ncforce_baro))
                one = []
                for k in ks:
                    only = np.zeros_like(force)
                    only[k] = force[k]
                    q.compute_lwa_and_barotropic_fluxes(return_named_tuple=False, ncforce=only)
                    one.append(np.array(q.ncforce_baro) * q.prefactor / w[k])
                levels.append(one)
            mean = (got[1:-1] * (w[1:-1] / q.prefactor)[:, None, None]).sum(0)
            same(mon, mean, wants, "ncforce, vertical mean", (y, i))
            for n, k in enumerate(ks):
                same(mon, got[k], [one[n] for one in levels], "ncforce, level", (y, i, int(k)))
                mon.count("checked:forcing-of-level")
    mon.count("script:forcing")


def month_files(r, here, year, month):
    """Input of the predigest script for a month; only the first few steps differ."""
    import calendar
    nt = calendar.monthrange(year, month)[1] * 4
    nlat, nlon = int(r.integers(9, 14)) * 2 + 1, int(r.integers(4, 7))
    a = Rows(r, 6, nlat, nlon, True, True, flavor="noise")
    able = []
    for i in range(a.nt):
        with contextlib.suppress(Skip):
            next(iter(a.fields("QGFieldNH18", i, kmax=49, dz=1000)))
            able.append(i)
    if len(able) < 2:
        raise Skip("nonconvergent")
    order = r.choice(able, nt)
    a.steps = [a.steps[j] for j in order]
    a.nt, a.time = nt, a.time[0] + np.arange(nt) * r.choice([6, 0.25])
    a.order = order
    root = os.path.join(here, "data/")
    import json
    with open("path.json", "w") as fh:
        json.dump(dict(vol1=root, vol2=os.path.join(here, "other/")), fh)
    for n in "uvt":
        a.write("%s%d/%d_%02d_%s.nc" % (root, year, year, month, n), n, n, ("time", "level", "latitude", "longitude"))
    return a


def predigest(r, mon, here):
    year, month = int(r.integers(1979, 2019)), int(r.integers(1, 13))
    if r.random() < 0.4:
        year, month = int(r.choice([1980, 1996, 2000, 2016])), 2
    a = month_files(r, here, year, month)
    if not run_script(mon, "mdtf_predigest_data/predigest_data.py", here, [year, month]):
        return
    out = os.path.join(here, "mnt/winds/data/csyhuang/predigest/output_%d_%02d.nc" % (year, month))
    if not mon.ok(os.path.isfile(out), "file-written", name=out):
        return
    f = read(out)
    coordinates(mon, f, a, ("time", None, "latitude", "longitude"))
    mon.close(f["height"][0], np.arange(49) * 1000.0, "levels-written")
    done = {}
    for i in range(a.nt):
        j = int(a.order[i])
        if j not in done:
            done[j] = []
            for q in a.fields("QGFieldNH18", i, kmax=49, dz=1000):
                q.compute_lwa_and_barotropic_fluxes(return_named_tuple=False)
                done[j].append(dict(lwa_baro=np.array(q.lwa_baro), u_baro=np.array(q.u_baro), fawa=np.array(q.lwa).mean(-1),
                                    uref=np.array(q.uref), ubar=np.array(q.interpolated_u).mean(-1)))
        for n in ("lwa_baro", "u_baro", "fawa", "uref", "ubar"):
            same(mon, f[n][0][i], [d[n] for d in done[j]], n, i)
    mon.count("script:predigest")


def seasonal_figures(r, mon, saved, data, years, months, lat, lon):
    height = np.arange(49) * 1000.0
    for y in years:
        d = {n: np.concatenate([data[y, m][n] for m in months]).astype(float) for n in data[y, 1]}
        lwa, u = d["lwa_baro"], d["u_baro"]
        cov = ((lwa - lwa.mean(0)) * (u - u.mean(0))).sum(0) / (len(u) - 1)
        for name, x, z, f in (("lwa_baro", lon, lat, lwa.mean(0)), ("u_baro", lon, lat, u.mean(0)), ("lwa_u_baro_cov", lon, lat, cov),
                              ("uref", lat, height, d["uref"].mean(0)), ("ubar", lat, height, d["ubar"].mean(0)),
                              ("delta_u", lat, height, d["ubar"].mean(0) - d["uref"].mean(0))):
            path = "ERA5_%d_DJF_%s.png" % (y, name)
            if not mon.ok(path in saved, "figure-saved", name=path, there=sorted(saved)):
                continue
            fig = saved[path]
            ps = panels(fig)
            if not mon.ok(len(ps) == 1, "figure-saved", name=path, panels=len(ps)):
                continue
            mon.ok(ps[0].get_title().startswith("ERA5 %d DJF" % y), "figure-saved", name=path, title=ps[0].get_title())
            judge(mon, fig, ps[0], x, z, f, r, name, "jet", max_levels=30, npoints=6)
            if z is height:
                mon.close(ps[0].get_xlim(), [-85.0, 85.0], "figure-saved", name=path)
            mon.count("figure-of-season")


def season(r, mon, here, full, drawn):
    """The seasonal means and covariances made of the monthly files."""
    import netCDF4
    # the figures are drawn when the script's switch is on
    years = list(range(1979, 2024)) if full else [1979, 1980] if drawn else [1979, 1980, 1981, 1982]
    seasons = dict(DJF=[1, 2, 12], MAM=[3, 4, 5], JJA=[6, 7, 8], SON=[9, 10, 11])
    nlat, nlon = int(r.integers(1, 4)) * 2 + 1, int(r.integers(2, 5))
    if drawn:
        nlat, nlon = nlat + 6, nlon + 8
    lat, lon = np.linspace(-90, 90, nlat), np.arange(nlon) * 360.0 / nlon
    data = {}
    for y in years:
        for m in range(1, 13):
            nt = int(r.integers(1, 4))
            d = {n: (r.normal(size=s) * 10 + 5).astype("f4") for n, s in (
                ("lwa_baro", (nt, nlat, nlon)), ("u_baro", (nt, nlat, nlon)), ("uref", (nt, 49, nlat)), ("ubar", (nt, 49, nlat)))}
            data[y, m] = d
            p = os.path.join(here, "mnt/winds/data/csyhuang/predigest/output_%d_%02d.nc" % (y, m))
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with netCDF4.Dataset(p, "w") as f:
                for n, s in (("time", nt), ("height", 49), ("latitude", nlat), ("longitude", nlon)):
                    f.createDimension(n, s)
                f.createVariable("latitude", "f4", ("latitude",))[:] = lat
                f.createVariable("longitude", "f4", ("longitude",))[:] = lon
                for n, v in d.items():
                    f.createVariable(n, "f4", ("time", "latitude", "longitude") if v.shape[1] != 49 else
                                     ("time", "height", "latitude"))[:] = v

    name = "mdtf_predigest_data/plot_from_predigest.py"
    if not drawn:
        if not run_script(mon, name, here, ends_with=() if full else (OSError,)):
            return
    else:
        import matplotlib.pyplot as plt
        with Recorder() as rec:
            saved, real = {}, plt.savefig
            plt.savefig = lambda path, *a, **k: saved.update({os.path.basename(str(path)): plt.gcf()})
            try:
                end = run_script(mon, name, here, ends_with=(OSError,), switch="to_plot")
                if not end:
                    return
                if end == "switched":
                    seasonal_figures(r, mon, saved, data, years, seasons["DJF"], lat, lon)
            finally:
                plt.savefig = real
    for y in years:
        for sn, months in seasons.items():
            if not full and sn != "DJF":
                continue
            name = "ERA5_%d_%s_predigest_dataset.nc" % (y, sn)
            if not mon.ok(os.path.isfile(name), "file-written", name=name) or (full and r.random() > 0.25):
                continue
            f = read(name)
            all_ = {n: np.concatenate([data[y, m][n] for m in months]).astype(float) for n in data[y, 1]}
            lwa, u = all_["lwa_baro"], all_["u_baro"]
            want = dict(lwa_baro=lwa.mean(0), u_baro=u.mean(0), uref=all_["uref"].mean(0), ubar=all_["ubar"].mean(0),
                        delta_u=all_["ubar"].mean(0) - all_["uref"].mean(0),
                        lwa_u_covariance=((lwa - lwa.mean(0)) * (u - u.mean(0))).sum(0) / (len(u) - 1))
            for n, w in want.items():
                if mon.ok(n in f, "written-shape", what=n):
                    mon.count("checked:written")
                    mon.close(f[n][0], w, "season-written", atol=1e-4, rtol=1e-4, what=n, season=(y, sn))
            mon.close(f["height"][0], np.arange(49) * 1000.0, "levels-written")
            mon.close(f["latitude"][0], lat, "latitudes-written", atol=1e-4)
    mon.count("script:season")
    if full:
        mon.count("season:all")


def grl(r, mon, here):
    nt = 2
    a = Rows(r, nt, 181, int(r.integers(4, 7)), r.random() < 0.7, r.random() < 0.7)
    for n in "uvt":
        a.write("grl2021_data/2021_06_%s.nc" % n, n, n, ("time", "level", "latitude", "longitude"))
    # the figures need further files that are not there
    if not run_script(mon, "nhn_grl2022/sample_run_script.py", here, ends_with=(FileNotFoundError,)):
        return
    out = "2021-06-01_to_2021-06-30_output.nc"
    if not mon.ok(os.path.isfile(out), "file-written", name=out, there=os.listdir(".")):
        return
    f = read(out)
    units(mon, f)
    mon.close(f["latitude"][0], a.ylat[90:], "latitudes-written", atol=1e-4)
    mon.close(f["longitude"][0], a.xlon, "longitudes-written", atol=1e-3)
    mon.ok((np.asarray(f["time"][0])[:nt] == a.time).all() and f["time"][2].get("units") == a.units, "times-written",
           times=f["time"][0], want=a.time)
    names = dict(lwa="lwa_baro", ua1="adv_flux_f1", ua2="adv_flux_f2", ep1="adv_flux_f3", ep4="meridional_heat_flux")
    cos = np.cos(np.deg2rad(a.ylat[90:]))[:, None]
    for i in range(nt):
        qs = []
        for q in a.fields("QGFieldNHN22", i, kmax=97, dz=500.0, eq_boundary_index=5):
            q.compute_lwa_and_barotropic_fluxes(return_named_tuple=False)
            qs.append(q)
        rows = slice(-91, None)
        inner = slice(6, -1)          # next to the boundary and at the pole the products divide by other rows
        for n, attr in names.items():
            same(mon, f[n][0][i][inner], [np.asarray(getattr(q, attr))[rows][inner] for q in qs], n, i)
        # the divergence of the eddy momentum flux is made of the two fluxes
        div = (f["ep2"][0][i] - f["ep3"][0][i]) / (2 * 6.378e6 * np.deg2rad(1.0) * np.maximum(cos, 1e-9))
        got, wants = div[inner], [np.asarray(q.divergence_eddy_momentum_flux)[rows][inner] for q in qs]
        errs = [np.abs(got - w).max() / np.abs(w).max() for w in wants]
        mon.ok(min(errs) < 2e-4, "written", what="ep2 and ep3", errors=errs)
    mon.count("script:grl")


def run(case, mon):
    r = gen.rng_of(case["seed"], 33)
    mon.nontrivial(case["seed"])
    with scratch() as here:
        if case["kind"] == "season":
            return season(r, mon, here, case["full"], case.get("drawn", False))
        {"budget": budget, "forcing": forcing, "predigest": predigest, "grl": grl}[case["kind"]](r, mon, here)
