"""What the plotting utilities draw and write."""
import contextlib
import io
import os
import tempfile

import numpy as np

from vf import gen
from vf.mon import Skip

ID = "C30"
RULE = ("random fields, grids and options through every plotting function and class; the artists of the figure made are "
        "asked which colour interval covers each grid point on the screen; coastlines (map data that need a download) are "
        "replaced by a recorder; distinct = case")
MIN = {"checked:colour-at-point": 200, "figure:compare": 15, "figure:compare-on-map": 15, "figure:map": 15,
       "figure:section": 15, "figure:file": 5, "checked:files-written": 60}
ENV = {"MPLBACKEND": "Agg"}
WATCHDOG = 120

KINDS = ["compare", "compare-on-map", "map", "section", "compare", "compare-on-map", "map", "section", "file", "on-axis"]


def cases(tier, seed):
    n = 200 if tier == "quick" else 4000
    return [dict(seed=int(seed * 1013 + i), kind=KINDS[i % len(KINDS)]) for i in range(n)]


class Recorder:
    """Figures made and coastlines asked for while the library plots."""

    def __enter__(self):
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        import cartopy.mpl.geoaxes as geo
        self.plt, self.geo = plt, geo
        plt.close("all")
        plt.rcParams["figure.dpi"] = 40
        self.figures, self.coast, self.shown = [], [], 0
        self.old = (plt.figure, geo.GeoAxes.coastlines, plt.show)
        rec = self

        def figure(*a, **k):
            f = rec.old[0](*a, **k)
            if all(f is not g for g in rec.figures):
                rec.figures.append(f)
            return f

        def coastlines(ax, resolution="auto", color="black", **k):
            rec.coast.append((ax, k.get("alpha")))

        def show(*a, **k):
            rec.shown += 1

        plt.figure, geo.GeoAxes.coastlines, plt.show = figure, coastlines, show
        return self

    def __exit__(self, *a):
        self.plt.figure, self.geo.GeoAxes.coastlines, self.plt.show = self.old
        self.plt.close("all")


@contextlib.contextmanager
def scratch():
    here = os.getcwd()
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            yield d
        finally:
            os.chdir(here)


def files(d):
    return sorted(os.path.relpath(os.path.join(a, f), d) for a, _, fs in os.walk(d) for f in fs)


def contours(ax):
    from matplotlib.contour import ContourSet
    return [c for c in ax.collections if isinstance(c, ContourSet)]


def panels(fig):
    """The axes that hold contours, from left to right."""
    return sorted((a for a in fig.axes if contours(a)), key=lambda a: a.get_position().x0)


def centre_of(ax):
    p = ax.projection.proj4_params
    return p.get("lon_0", 0.0) + p.get("pm", 0.0)


def on_screen(ax, x, y):
    if getattr(ax, "projection", None) is not None:
        x = (x - centre_of(ax) + 180.0) % 360.0 - 180.0
    return ax.transData.transform((x, y))


class Region:
    """The area of one colour: its outlines, holes included."""

    def __init__(self, path):
        from matplotlib.path import Path
        self.loops = [Path(p) for p in path.to_polygons(closed_only=True)] if len(path.vertices) else []

    def covers(self, point):
        return sum(p.contains_point(point) for p in self.loops) % 2 == 1


def judge(mon, fig, ax, x, y, field, r, what, cmap, levels=None, max_levels=None, npoints=40):
    """Which colour interval covers the grid points of `field`?"""
    cs = contours(ax)
    if not mon.ok(len(cs) == 1, "one-field-per-panel", what=what, n=len(cs)):
        return None
    cs = cs[0]
    lev = np.asarray(cs.levels, float)
    if levels is not None:
        mon.close(lev, levels, "scale", rtol=1e-9, atol=1e-12 * np.abs(levels).max(), what=what)
    mon.equal(cs.cmap.name, cmap, "colour-map", what=what)
    # the colours span the scale
    mon.close([cs.norm.vmin, cs.norm.vmax], [lev[0], lev[-1]], "colours-span-the-scale", rtol=0.03, scale=lev[-1] - lev[0], what=what)
    if max_levels is not None:
        mon.within(lev.size, max(2, max_levels // 5), max_levels + 3, "number-of-levels", what=what)
    if levels is None:
        eps = 1e-9 * (lev[-1] - lev[0])
        mon.ok(lev[0] <= field.min() + eps and lev[-1] >= field.max() - eps, "automatic-scale", what=what,
               levels=[lev[0], lev[-1]], field=[field.min(), field.max()])
    fig.canvas.draw()
    proj = getattr(ax, "projection", None)
    tr = cs.get_transform()
    paths = [Region(p) for p in cs.get_paths()]
    # contours are kept in the coordinates of the data (or of the map) and brought to the screen by `tr`: a grid
    # point must land on the screen where the axes say its coordinates are
    plain = proj is None or tr == ax.transData
    if not mon.ok(len(paths) == lev.size - 1, "one-field-per-panel", what=what, n=len(paths)):
        return cs
    step = np.diff(lev).min()
    done = 0
    ny, nx = field.shape
    span = np.ptp(x), np.ptp(y)
    for _ in range(npoints * 4):
        j, i = int(r.integers(1, ny - 1)), int(r.integers(1, nx - 1))
        v = field[j, i]
        if np.abs(lev - v).min() < 0.02 * step:
            continue
        if proj is not None:
            if abs((x[i] - centre_of(ax)) % 360.0 - 180.0) < 8.0:
                continue                        # the seam of the map
        screen = on_screen(ax, x[i], y[j])
        pt = ax.transData.inverted().transform(screen) if plain else np.array([x[i], y[j]])
        mon.close(np.ravel(tr.transform(pt[None, :])), screen, "place-on-screen", atol=0.05, what=what)
        hit = [k for k, p in enumerate(paths) if p.covers(pt)]
        want = [int(np.searchsorted(lev, v)) - 1] if lev[0] < v < lev[-1] else []
        if hit != want:
            # a point may lie on the joint of two triangles or be rounded across it: look around it
            near = set()
            for dx in (-1e-6, 1e-6):
                for dy in (-1e-6, 1e-6):
                    q = pt + [dx * span[0], dy * span[1]]
                    near |= {k for k, p in enumerate(paths) if p.covers(q)}
            if set(want) <= near if want else not near:
                mon.count("points-on-an-edge")
                continue
        mon.ok(hit == want, "colour-at-point", what=what, point=[float(x[i]), float(y[j])], value=float(v),
               interval=[float(lev[k]) for k in hit], wanted=[float(lev[k]) for k in want])
        done += 1
        if done >= npoints:
            break
    mon.count("points:" + what, done)
    return cs


def field_of(r, ny, nx, scale, offset):
    x = np.arange(nx) / nx * 2 * np.pi
    y = np.linspace(-1, 1, ny)[:, None]
    f = np.zeros((ny, nx))
    for _ in range(4):
        f = f + r.normal() * np.cos(int(r.integers(1, 4)) * x + r.normal() + 3 * r.normal() * y) + r.normal() * y
    f = f + 0.1 * r.normal(size=f.shape)
    return scale * f / np.abs(f).max() + offset


def words(r):
    return "".join(chr(97 + int(k)) for k in r.integers(0, 26, int(r.integers(3, 9))))


def colorbars(fig):
    from matplotlib.contour import ContourSet
    out = []
    for a in fig.axes:
        for c in a.collections:
            if isinstance(c, ContourSet) and getattr(c, "colorbar", None) is not None:
                out.append(c)
    return out


def path_choice(r, d):
    k = r.random()
    if k < 0.3:
        return None
    name = words(r) + str(r.choice([".png", ".pdf", ".svg"], p=[0.8, 0.1, 0.1]))
    if k < 0.5:
        os.makedirs(os.path.join(d, "sub"), exist_ok=True)
        return os.path.join(d, "sub", name)
    return name


def check_files(mon, d, path, what):
    got = files(d)
    want = [] if path is None else [os.path.relpath(os.path.join(d, path), d)]
    mon.ok(got == want, "files-written", what=what, got=got, want=want)
    for f in got:
        mon.ok(os.path.getsize(os.path.join(d, f)) > 500, "file-has-a-figure", what=what, file=f)
        if f.endswith(".png"):
            mon.ok(open(os.path.join(d, f), "rb").read(8) == b"\x89PNG\r\n\x1a\n", "file-has-a-figure", what=what, file=f)


def run(case, mon):
    r = gen.rng_of(case["seed"], 30)
    mon.nontrivial([case["seed"], case["kind"]])
    with scratch() as d, Recorder() as rec, contextlib.redirect_stdout(io.StringIO()) as out:
        {"compare": compare, "compare-on-map": compare, "map": lonlat, "section": section, "file": from_file,
         "on-axis": on_axis}[case["kind"]](case["kind"], r, mon, d, rec, out)
    mon.count("figure:" + case["kind"])


def map_grid(r):
    nx = int(r.choice([12, 18, 24, 36]))
    ny = int(r.integers(7, 20))
    x = np.arange(nx) * 360.0 / nx
    y = np.linspace(*[(-90.0, 90.0), (-80.0, 80.0), (0.0, 90.0), (-85.0, -5.0)][int(r.integers(4))], ny)
    return x, y


def only_figure(mon, rec, what):
    if not mon.ok(len(rec.figures) == 1, "one-figure", what=what, n=len(rec.figures)):
        return None
    return rec.figures[0]


def compare(kind, r, mon, d, rec, out):
    from falwa import plot_utils
    x, y = map_grid(r)
    if kind == "compare" and r.random() < 0.5:
        x, y = np.sort(r.uniform(-40, 90, x.size)), np.cumsum(r.uniform(0.5, 2.0, y.size)) * 1000.0
    scale, offset = float(r.choice([1.0, 1e-4, 250.0])), 0.0
    offset = scale * float(r.choice([0.0, 0.0, 3.0, -3.0]))
    a = field_of(r, y.size, x.size, scale, offset)
    diff = float(r.choice([1.0, 0.3, 0.02]))
    b = a + diff * field_of(r, y.size, x.size, scale, 0.0)
    if r.random() < 0.3:
        a, b = b, a
    ka, kb = a.copy(), b.copy()
    ta, tb, tt = words(r), words(r), words(r)
    kw = {}
    factor = 0.01
    if r.random() < 0.8:
        factor = [None, 0.01, 0.1, 0.5, 1.0, 2.0][int(r.integers(6))]
        kw["diff_factor"] = factor
    cmap = "rainbow"
    if r.random() < 0.5:
        cmap = kw["cmap"] = str(r.choice(["viridis", "jet", "gray"]))
    size = (15, 4)
    if r.random() < 0.4:
        size = kw["figsize"] = (float(r.uniform(9, 14)), float(r.uniform(3, 6)))
    path = "default.png"
    if r.random() < 0.8:
        path = kw["savefig_fname"] = path_choice(r, d)
    f = plot_utils.compare_two_fields if kind == "compare" else plot_utils.compare_two_fields_on_map
    got = f(a, b, ta, tb, x, y, tt, **kw)
    mon.equal(a, ka, "inputs-untouched")
    mon.equal(b, kb, "inputs-untouched")
    check_files(mon, d, path, kind)
    fig = only_figure(mon, rec, kind)
    if fig is None:
        return
    mon.close(fig.get_size_inches(), size, "figure-size", rtol=1e-6)
    mon.equal(fig.get_suptitle(), tt, "titles")
    ps = panels(fig)
    if not mon.ok(len(ps) == 3, "three-panels", n=len(ps)):
        return
    mon.equal([p.get_title() for p in ps][:2], [ta, tb], "titles")
    lo, hi = min(a.min(), b.min()), max(a.max(), b.max())
    common = np.linspace(lo, hi, 31)
    top = max(abs(lo), abs(hi))
    judge(mon, fig, ps[0], x, y, a, r, kind, cmap, levels=common, npoints=12)
    judge(mon, fig, ps[1], x, y, b, r, kind, cmap, levels=common, npoints=12)
    dlev = None if factor is None else np.linspace(0, factor * top, 31)
    judge(mon, fig, ps[2], x, y, np.abs(a - b), r, kind, cmap, levels=dlev, npoints=12)
    bars = colorbars(fig)
    mon.ok(len(bars) == 3, "colour-bars", n=len(bars))
    # nobody named a quantity or unit
    mon.equal([c.colorbar.ax.get_ylabel() + c.colorbar.ax.get_xlabel() for c in bars], [""] * len(bars), "colour-bar-label")
    side = [p.get_position() for p in ps]
    mon.ok(max(q.width for q in side) < 1.15 * min(q.width for q in side), "side-by-side", width=[q.width for q in side])
    if kind == "compare-on-map":
        mon.ok(len({str(p.projection.proj4_params) for p in ps}) == 1, "same-projection")
    mon.ok(side[0].x1 <= side[1].x0 and side[1].x1 <= side[2].x0, "side-by-side", at=[[q.x0, q.x1] for q in side])
    if kind == "compare-on-map":
        mon.ok(len({id(c[0]) for c in rec.coast}) == 3, "coastlines")
    mon.count("factor:" + str(factor))


def on_axis(kind, r, mon, d, rec, out):
    from falwa import plot_utils
    from cartopy import crs
    x, y = map_grid(r)
    a = field_of(r, y.size, x.size, 1.0, 0.0)
    lev = np.linspace(*sorted(r.uniform(-1.2, 1.2, 2)), int(r.integers(4, 30)))
    t, lab = words(r), words(r)
    fig = rec.plt.figure()
    ax = fig.add_subplot(1, 1, 1, projection=crs.PlateCarree(180))
    got = plot_utils.map_on_axis(ax, x, y, a, lev, t, lab)
    mon.ok(only_figure(mon, rec, kind) is not None, "one-figure")
    cs = judge(mon, fig, ax, x, y, a, r, kind, "rainbow", levels=lev)
    mon.ok(got is cs, "handle-returned")
    mon.equal(ax.get_title(), t, "titles")
    others = [q for q in fig.axes if q is not ax]
    mon.ok(len(others) == 1 and lab in (others[0].get_ylabel(), others[0].get_xlabel()), "colour-bar-label")
    mon.close(np.sort((np.asarray(ax.get_xticks()) + 180.0) % 360.0), np.sort((np.arange(0, 361, 60) + 360.0) % 360.0),
              "ticks", atol=1e-6)
    yt = np.asarray(ax.get_yticks())
    yt = yt[yt <= y.max() + 1e-9]
    mon.close(yt, np.arange(y.min(), y.max() + 1e-9, 10), "ticks", atol=1e-6)


def mask_points(r, x, y):
    n = int(r.integers(1, 20))
    return r.integers(0, x.size, n), r.integers(0, y.size, n)


def lonlat(kind, r, mon, d, rec, out):
    from falwa import plot_utils
    x, y = map_grid(r)
    size = (float(r.uniform(5, 9)), float(r.uniform(3, 6)))
    title = words(r)
    xl, yl = mask_points(r, x, y)
    lon_range = np.arange(0, 361, int(r.choice([30, 60, 90])))
    lat_range = np.arange(-90, 91, int(r.choice([15, 30])))
    kw, alpha, band, width, xt, yt = {}, 0.7, True, 20, "Longitude[deg]", "Latitude[deg]"
    if r.random() < 0.7:
        alpha = kw["coastlines_alpha"] = float(r.uniform(0, 1))
        band = kw["exclude_equator"] = bool(r.random() < 0.5)
        width = kw["white_space_width"] = float(r.integers(1, 30))
        xt = kw["x_axis_title"] = words(r)
        yt = kw["y_axis_title"] = words(r)
    pl = plot_utils.LatLonMapPlotter(size, title, x, y, xl, yl, lon_range, lat_range, **kw)
    for turn in range(int(r.integers(1, 3))):
        del rec.figures[:], rec.coast[:]
        for f in files(d):
            os.remove(os.path.join(d, f))
        v = field_of(r, y.size, x.size, float(r.choice([1.0, 1e-5, 300.0])), 0.0)
        kv = v.copy()
        vt, cmap = words(r), str(r.choice(["viridis", "jet", "gray"]))
        kw2, nlev, path = {}, 30, "figure.png"
        if r.random() < 0.8:
            path = kw2["save_path"] = path_choice(r, d)
        if r.random() < 0.6:
            nlev = kw2["num_level"] = int(r.integers(4, 40))
        pl.plot_and_save_variable(v, cmap, vt, **kw2)
        mon.equal(v, kv, "inputs-untouched")
        check_files(mon, d, path, kind)
        fig = only_figure(mon, rec, kind)
        if fig is None:
            return
        ps = panels(fig)
        if not mon.ok(len(ps) == 1, "one-panel", n=len(ps)):
            return
        ax = ps[0]
        judge(mon, fig, ax, x, y, v, r, kind, cmap, max_levels=nlev, npoints=30)
        mon.close(fig.get_size_inches(), size, "figure-size", rtol=1e-6)
        mon.ok(ax.get_position().width > 0.5 and ax.get_position().height > 0.5, "panel-fills-the-figure",
               at=ax.get_position().bounds)
        mon.equal(ax.get_title(), f"{title}\n{vt}", "titles")
        mon.equal([ax.get_xlabel(), ax.get_ylabel()], [xt, yt], "axis-labels")
        mon.close(np.unique(np.round((np.asarray(ax.get_xticks()) + 180.0) % 360.0, 4)),
                  np.unique((lon_range + 180.0) % 360.0), "ticks", atol=1e-3)
        mon.close(np.asarray(ax.get_yticks()), lat_range, "ticks", atol=1e-6)
        mon.ok([c[1] for c in rec.coast] == [alpha], "coastlines", got=[c[1] for c in rec.coast], want=alpha)
        dots = [c for c in ax.collections if type(c).__name__ == "PathCollection"]
        if mon.ok(len(dots) == 1, "mask-points", n=len(dots)):
            mon.close(np.asarray(dots[0].get_offsets()), np.column_stack([x[xl], y[yl]]), "mask-points", atol=1e-9)
        equator_band(mon, ax, band, width, axis=1)
        mon.ok(len(colorbars(fig)) == 1, "colour-bars", n=len(colorbars(fig)))


def equator_band(mon, ax, band, width, axis):
    import matplotlib.colors as mc
    lines = []
    for ln in ax.lines:
        xy = np.asarray(ln.get_xydata(), float)
        if len(xy) == 2 and np.all(xy[:, axis] == 0.0):
            lines.append(ln)
    if not mon.ok(len(lines) == int(band), "equator-band", n=len(lines), wanted=band):
        return
    for ln in lines:
        mon.close(ln.get_linewidth(), width, "equator-band", atol=1e-9)
        mon.ok(mc.to_rgb(ln.get_color()) == (1.0, 1.0, 1.0), "equator-band", color=ln.get_color())
        mon.equal(sorted(np.asarray(ln.get_xydata())[:, 1 - axis].tolist()), [0.0, 1.0], "equator-band")


def section(kind, r, mon, d, rec, out):
    from falwa import plot_utils
    y = np.cumsum(r.uniform(200, 2000, int(r.integers(5, 25))))
    x = np.linspace(*[(-90.0, 90.0), (-80.0, 85.0), (0.0, 90.0)][int(r.integers(3))], int(r.integers(6, 30)))
    size = (float(r.uniform(5, 9)), float(r.uniform(3, 6)))
    title = words(r)
    xlim = sorted(r.uniform(-90, 90, 2).tolist())
    if xlim[1] - xlim[0] < 10:
        xlim = [-80.0, 80.0]
    kw, band, width, xt, yt = {}, True, 20, "Latitude[deg]", "Pseudoheight[m]"
    if r.random() < 0.7:
        band = kw["exclude_equator"] = bool(r.random() < 0.5)
        width = kw["white_space_width"] = float(r.integers(1, 30))
        xt = kw["x_axis_title"] = words(r)
        yt = kw["y_axis_title"] = words(r)
    pl = plot_utils.HeightLatPlotter(size, title, x, y, xlim, **kw)
    for turn in range(int(r.integers(1, 3))):
        del rec.figures[:]
        for f in files(d):
            os.remove(os.path.join(d, f))
        v = field_of(r, y.size, x.size, float(r.choice([1.0, 1e-5, 300.0])), 0.0)
        kv = v.copy()
        vt, cmap = words(r), str(r.choice(["viridis", "jet", "gray"]))
        path = None
        while path is None:
            path = path_choice(r, d)
        kw2, nlev = {}, 30
        if r.random() < 0.6:
            nlev = kw2["num_level"] = int(r.integers(4, 40))
        pl.plot_and_save_variable(v, cmap, vt, path, **kw2)
        mon.equal(v, kv, "inputs-untouched")
        check_files(mon, d, path, kind)
        fig = only_figure(mon, rec, kind)
        if fig is None:
            return
        ps = panels(fig)
        if not mon.ok(len(ps) == 1, "one-panel", n=len(ps)):
            return
        ax = ps[0]
        judge(mon, fig, ax, x, y, v, r, kind, cmap, max_levels=nlev, npoints=30)
        mon.close(fig.get_size_inches(), size, "figure-size", rtol=1e-6)
        mon.ok(ax.get_position().width > 0.5 and ax.get_position().height > 0.5, "panel-fills-the-figure",
               at=ax.get_position().bounds)
        mon.equal(ax.get_title(), f"{title}\n{vt}", "titles")
        mon.equal([ax.get_xlabel(), ax.get_ylabel()], [xt, yt], "axis-labels")
        mon.close(ax.get_xlim(), xlim, "limits", atol=1e-9)
        equator_band(mon, ax, band, width, axis=0)
        mon.ok(len(colorbars(fig)) == 1, "colour-bars", n=len(colorbars(fig)))


def from_file(kind, r, mon, d, rec, out):
    import xarray as xr
    from falwa import plot_utils
    x, y = map_grid(r)
    nt = int(r.integers(2, 15))
    names = ("latitude", "longitude") if r.random() < 0.5 else ("lat", "lon")
    series = np.stack([field_of(r, y.size, x.size, 1.0, 0.0) for _ in range(nt)])
    other = r.normal(size=series.shape)
    path = os.path.join(d, "in.nc")
    ds = xr.Dataset({"v": (("time",) + names, series), "w": (("time",) + names, other)},
                    coords={"time": np.arange(nt), names[0]: y, names[1]: x})
    ds.to_netcdf(path, engine="scipy")
    kw, t = {}, 10
    if names[0] != "latitude":
        kw.update(latitude_name=names[0], longitude_name=names[1])
    if nt <= 10 or r.random() < 0.7:
        t = kw["tstep"] = int(r.integers(0, nt))
    axis = 0
    if r.random() < 0.5:
        axis = kw["zonal_axis"] = 1
    plot_utils.plot_lon_lat_field(path, "v", **kw)
    mon.ok(files(d) == ["in.nc"], "files-written", got=files(d))
    fig = only_figure(mon, rec, kind) if rec.figures else rec.plt.gcf()
    ps = panels(fig)
    if not mon.ok(len(ps) == 1, "one-panel", n=len(ps)):
        return
    cs = contours(ps[0])[0]
    judge(mon, fig, ps[0], x, y, series[t], r, kind, cs.cmap.name, npoints=30)
    # the profile it prints
    import re
    text = out.getvalue()
    nums = np.array([float(n) for n in re.findall(r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?", text[text.find("["):])])
    want = series[t].mean(axis=axis)
    if mon.ok(nums.size == want.size, "printed-mean", got=nums.size, want=want.size):
        mon.close(nums, want, "printed-mean", atol=1e-6)
