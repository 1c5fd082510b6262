"""The figures of the GRL 2022 study, made by its script from files of fields and fluxes."""
import contextlib
import io
import os
import runpy
import sys
import warnings

import numpy as np

from vf import gen, stage
from checks.c30 import scratch

ID = "C34"
RULE = ("the study's script run as it is on a month of random fields (files as large as the real ones, sparse), every "
        "curve, colour field, contour and arrow handed to the plotting library recorded with the file it is saved to and "
        "compared, over the window shown, with the quantity computed from the input files; distinct = month")
MIN = {"figures": 70, "checked:drawn": 100, "checked:curve": 8, "checked:arrows": 3}
WATCHDOG = 800
WORKERS = 2  # the script holds a month of winds: 6 GB
BUDGET = {"quick": 700, "thorough": 3000}
ASSUMPTIONS = ["nothing is rendered: what is judged is the data, coordinates, levels and file names given to matplotlib",
               "files laid out as the study's (1 degree, latitudes downwards, 37 levels upwards, 6-hourly from 1 June)"]

A, DL, DT = 6378000.0, np.deg2rad(1.0), 21600.0
P = np.array([1., 2., 3., 5., 7., 10., 20., 30., 50., 70., 100., 125., 150., 175., 200., 225., 250., 300., 350., 400., 450.,
              500., 550., 600., 650., 700., 750., 775., 800., 825., 850., 875., 900., 925., 950., 975., 1000.])
KAPPA = 287.0 / 1004.0
LON, LAT, NH = np.arange(360), np.arange(181) - 90.0, np.arange(91)
DAYS = list(range(20, 31))


def cases(tier, seed):
    return [dict(seed=int(seed * 1033 + i)) for i in range(2 if tier == "quick" else 12)]


# ---------------------------------------------------------------- the month
def smooth(r, shape, n=4):
    """Random waves in time and longitude, different in every row."""
    nt, ny, nx = shape
    out = np.zeros(shape)
    t, x = np.arange(nt)[:, None, None] / nt, np.deg2rad(np.arange(nx) * 360.0 / nx)
    for k in range(1, n + 1):
        a, p, w = r.normal(size=(3, 1, ny, 1))
        out += a / k * np.cos(k * x + 7 * w * t * 2 * np.pi + 9 * p)
    return out


def month(r):
    import netCDF4
    f = {}
    os.makedirs("grl2021_data")

    def create(name, var, dims):
        d = netCDF4.Dataset("grl2021_data/2021_06_%s.nc" % name, "w")
        for n, s in (("time", 120), ("level", 37), ("latitude", 181), ("longitude", 360)):
            d.createDimension(n, s)
        t = d.createVariable("time", "i4", ("time",))
        t[:] = 1060000 + 6 * np.arange(120)
        t.units, t.calendar = "hours since 1900-01-01 00:00:00.0", "gregorian"
        d.createVariable("level", "i4", ("level",))[:] = P
        d.createVariable("latitude", "f4", ("latitude",))[:] = 90.0 - np.arange(181)
        d.createVariable("longitude", "f4", ("longitude",))[:] = LON
        kw = dict(chunksizes=(1, 1, 181, 360), zlib=True, complevel=1) if "level" in dims else {}
        return d, d.createVariable(var, "f4", dims, **kw)

    full = ("time", "level", "latitude", "longitude")
    for n, k, scale, mean in (("z", 16, 3000, 100000), ("u", 16, 20, 5), ("v", 16, 15, 0), ("t", 20, 10, 265)):
        d, v = create(n, n, full)
        a = (mean + scale * r.standard_normal((120, 181, 360))).astype("f4")
        for m in range(70, 120):
            v[m, k] = a[m]
        f[n] = a.astype(float)[:, ::-1]
        if n == "t":            # the section along 49 N
            s = (250 + 10 * r.standard_normal((120, 37, 360))).astype("f4")
            s[:, 20] = a[:, 41]
            for m in range(70, 120):
                v[m, :, 41, :] = s[m]
            f["section"] = s.astype(float)
        d.close()
    for n, var, scale, mean in (("2t", "t2m", 12, 290), ("mtnlwrf", "mtnlwrf", 40, -240), ("mtnlwrfcs", "mtnlwrfcs", 40, -270),
                                ("tcw", "tcw", 1, 20), ("tcwv", "tcwv", 1, 19), ("sp", "sp", 1000, 100000)):
        d, v = create(n, var, ("time", "latitude", "longitude"))
        a = (mean + scale * r.standard_normal((120, 181, 360))).astype("f4")
        v[:] = a
        f[var] = a.astype(float)[:, ::-1]
        d.close()
    # the output of the analysis, with the four steps of July the script leaves room for
    g = {"lwa": 60 + 12 * smooth(r, (124, 91, 360))}
    g["lwa"] = np.maximum(g["lwa"], 15)
    c = r.uniform(10, 40)
    for n, s in (("ua1", 0.6), ("ua2", 0.3), ("ep1", 0.1)):
        g[n] = s * c * g["lwa"] + 60 * smooth(r, (124, 91, 360))
    for n in ("ep2", "ep3"):
        g[n] = 40 + 40 * smooth(r, (124, 91, 360))
    g["ep4"] = 1e-5 * smooth(r, (124, 91, 360))
    with netCDF4.Dataset("analysis.nc", "w") as d:
        for n, s in (("time", 124), ("latitude", 91), ("longitude", 360)):
            d.createDimension(n, s)
        for n in g:
            v = d.createVariable(n, "f4", ("time", "latitude", "longitude"))
            v[:] = g[n]
            f[n] = np.asarray(g[n], "f4").astype(float)
    # what the script sees of the winds before the figures: a month without steps, so that it analyses nothing
    for n in "uvt":
        with netCDF4.Dataset("empty_%s.nc" % n, "w") as d:
            for m, s in (("time", None), ("level", 37), ("latitude", 181), ("longitude", 360)):
                d.createDimension(m, s)
            t = d.createVariable("time", "i4", ("time",))
            t.units, t.calendar = "hours since 1900-01-01 00:00:00.0", "gregorian"
            d.createVariable("level", "i4", ("level",))[:] = P
            d.createVariable("latitude", "f4", ("latitude",))[:] = 90.0 - np.arange(181)
            d.createVariable("longitude", "f4", ("longitude",))[:] = LON
            d.createVariable(n, "f4", full)
    return f


@contextlib.contextmanager
def led(seen):
    """The script's own files: nothing to analyse, its output aside; the figures see the analysed month."""
    import netCDF4
    import netCDF4._netCDF4 as low
    real = netCDF4.Dataset

    def where(path, mode):
        path = str(path)
        base = os.path.basename(path)
        frame = sys._getframe(2)
        while frame and "nhn_grl2022" not in frame.f_code.co_filename:
            frame = frame.f_back
        figures = frame is not None and "sample_run" not in os.path.basename(frame.f_code.co_filename)
        if mode[0] in "wax":
            seen.append(base)
            return path + ".written"
        if figures:
            return "analysis.nc" if base in seen else path
        return "empty_%s.nc" % base[8] if base in ("2021_06_u.nc", "2021_06_v.nc", "2021_06_t.nc") else path

    class Led(real):
        def __init__(self, filename, mode="r", *a, **k):
            super().__init__(where(filename, mode), mode, *a, **k)

    netCDF4.Dataset = low.Dataset = Led
    try:
        yield
    finally:
        netCDF4.Dataset = low.Dataset = real


class Plotting:
    """Records what is drawn on every axes and the files figures are saved to; nothing is rendered."""

    def __enter__(self):
        import matplotlib
        matplotlib.use("Agg")
        import matplotlib.pyplot as plt
        from matplotlib.axes import Axes
        from matplotlib.cm import ScalarMappable
        from matplotlib.figure import Figure, FigureBase
        from cartopy.mpl.geoaxes import GeoAxes
        plt.close("all")
        self.plt, self.saved, self.undo = plt, [], []
        rec = self

        def patch(cls, name, new):
            if name in vars(cls):
                self.undo.append((cls, name, vars(cls)[name]))
                setattr(cls, name, new)

        def drawing(kind):
            def draw(ax, *a, **k):
                a = [np.array(x, float) if not isinstance(x, str) else x for x in a]
                vars(ax).setdefault("vf_draws", []).append((kind, a, dict(k)))
                m = ScalarMappable(cmap="rainbow")
                m.set_array(a[-1] if len(a) else [])
                m.levels = np.array(k.get("levels", [0.0, 1.0]), float)
                return m
            return draw

        for cls in (Axes, GeoAxes):
            for kind in ("contourf", "contour", "quiver"):
                patch(cls, kind, drawing(kind))
            patch(cls, "clabel", lambda ax, *a, **k: [])
        plot = Axes.plot

        def lines(ax, *a, **k):
            vars(ax).setdefault("vf_draws", []).append(("plot", [np.array(x, float) for x in a if not isinstance(x, str)], dict(k)))
            return plot(ax, *a, **k)

        patch(Axes, "plot", lines)
        patch(GeoAxes, "coastlines", lambda ax, *a, **k: None)
        patch(FigureBase, "colorbar", lambda fig, *a, **k: None)

        def savefig(fig, fname, *a, **k):
            rec.saved.append((os.path.basename(str(fname)), [
                dict(title=ax.get_title(), xlim=ax.get_xlim(), ylim=ax.get_ylim(), geo=isinstance(ax, GeoAxes),
                     xlabel=ax.get_xlabel(), ylabel=ax.get_ylabel(), draws=list(vars(ax).get("vf_draws", [])))
                for ax in fig.axes]))

        patch(Figure, "savefig", savefig)
        self.show = plt.show
        plt.show = lambda *a, **k: None
        return self

    def __exit__(self, *a):
        for cls, name, old in reversed(self.undo):
            setattr(cls, name, old)
        self.plt.show = self.show
        self.plt.close("all")


# ---------------------------------------------------------------- what the figures are titled with
def ddx(f, cos):
    return (np.roll(f, -1, -1) - np.roll(f, 1, -1)) / (2 * A * cos * DL)


def running(f, n):
    return sum(np.roll(f, k, -1) for k in range(-n, n + 1)) / (2 * n + 1)


def terms(f, rows):
    """Zonal and meridional flux convergence and the low-level source of wave activity."""
    cos = np.cos(np.deg2rad(np.arange(91)[rows]))[None, :, None]
    fx = (f["ua1"] + f["ua2"] + f["ep1"])[:, rows]
    fy = 0.5 * (f["ep2"] + f["ep3"])[:, rows] / cos
    return fx, fy, -ddx(fx, cos), (f["ep2"] - f["ep3"])[:, rows] / (2 * A * cos * DL), f["ep4"][:, rows]


def trapezoid(x, a, b):
    return 0.5 * (x[a:b] + x[a + 1:b + 1]).sum(0)


class Judge:
    def __init__(self, mon, rec):
        self.mon, self.files = mon, {}
        for n, axes in rec.saved:
            self.files.setdefault(n, []).append(axes)

    def axes(self, name, **lim):
        """The drawn-on axes of the only figure saved under a name."""
        got = self.files.get(name, [])
        if not self.mon.ok(len(got) == 1, "saved-once", file=name, times=len(got), there=sorted(self.files)[:80]):
            return None
        ax = [a for a in got[0] if a["draws"]]
        if not self.mon.ok(len(ax) == 1, "one-panel", file=name, axes=len(ax)):
            return None
        self.mon.count("figures")
        return ax[0]

    def field(self, name, kind, truth, xs, ys, window, tol, nth=0, levels=None):
        """A colour field or contour set shows truth (given on xs, ys) over the window."""
        ax = self.axes(name) if nth == 0 and kind == "contourf" else (self.files.get(name) or [[]])[0]
        if isinstance(ax, list):
            ax = next((a for a in ax if a["draws"]), None)
        if not ax:
            return None
        d = [x for x in ax["draws"] if x[0] == kind]
        if not self.mon.ok(len(d) > nth and len(d[nth][1]) >= 3, "drawn", file=name, kind=kind, nth=nth,
                           draws=[x[0] for x in ax["draws"]]):
            return ax
        x, y, z = d[nth][1][:3]
        x, y = (x[0], y[:, 0]) if x.ndim == 2 else (x, y)
        x0, x1, y0, y1 = window
        jx = {float(v): i for i, v in enumerate(np.round(np.mod(x, 360) if xs[-1] == 359 else x, 6))}
        jy = {float(v): i for i, v in enumerate(np.round(y, 6))}
        ix = [i for i, v in enumerate(xs) if x0 <= v <= x1]
        iy = [i for i, v in enumerate(ys) if y0 <= v <= y1]
        try:
            sx, sy = [jx[round(float(xs[i]), 6)] for i in ix], [jy[round(float(ys[i]), 6)] for i in iy]
        except KeyError as e:
            self.mon.fail("window-covered", file=name, kind=kind, missing=str(e))
            return ax
        if not self.mon.ok(z.shape == (len(y), len(x)), "drawn", file=name, kind=kind, shape=z.shape):
            return ax
        self.mon.count("checked:drawn")
        got, want = z[np.ix_(sy, sx)], truth[np.ix_(iy, ix)]
        self.mon.close(got, want, "drawn-values", atol=tol, what=(name, kind, nth))
        if levels is not None:
            lv = d[nth][2].get("levels", d[nth][1][3] if len(d[nth][1]) > 3 else None)
            self.mon.ok(lv is not None and np.size(lv) == len(levels) and np.allclose(lv, levels), "levels", file=name,
                        kind=kind, got=None if lv is None else np.asarray(lv).tolist())
        return ax


MAP = (140, 280, 10, 80)


def maps(f, j):
    """Figures 1, 2a, 3e and 3f: eleven days, one map each."""
    for n, day in enumerate(DAYS):
        m = 76 + 4 * n
        u, v, z = f["u"][m], f["v"][m], f["z"][m]
        name = "06%d.png" % day
        j.field(name, "contourf", np.hypot(u, v), LON, LAT, MAP, 1e-4, levels=np.arange(0, 95, 5))
        j.field(name, "contour", z / 9.81, LON, LAT, MAP, 1e-2, levels=np.arange(9600, 11300, 100))
        j.field("T_06%d.png" % day, "contourf", f["t"][m] * (1000 / 450.) ** KAPPA, LON, LAT, MAP, 1e-3,
                levels=np.arange(290, 342, 2))
        j.field("2T_06%d.png" % day, "contourf", f["t2m"][m], LON, LAT, MAP, 1e-3, levels=np.arange(250, 325, 5))
        th = f["section"][m][::-1] * ((1000 / P) ** KAPPA)[::-1, None]
        zz = -8.0 * np.log(P[::-1] / 1000)
        name = "THETA_06%d.png" % day
        sec = (140, 280, 0, 10)
        j.field(name, "contourf", th, LON, zz, sec, 1e-3, levels=np.arange(250, 365, 5))
        j.field(name, "contour", th, LON, zz, sec, 1e-3, levels=np.arange(250, 365, 5))
        j.field(name, "contour", th, LON, zz, sec, 1e-3, nth=1, levels=[320])
    ax = j.axes("t_profile.png")
    if ax:
        d = [x for x in ax["draws"] if x[0] == "plot"]
        if j.mon.ok(len(d) == 4, "drawn", file="t_profile.png", curves=len(d)):
            for n, x in enumerate(d):
                th = f["section"][92 + 8 * n][::-1, 241] * ((1000 / P) ** KAPPA)[::-1]
                zz = -8.0 * np.log(P[::-1] / 1000)
                up = zz >= 1.0
                j.mon.count("checked:curve")
                if j.mon.ok(x[1][0].shape == (37,), "drawn", file="t_profile.png", shape=x[1][0].shape):
                    j.mon.close(x[1][0][up], th[up], "curve", atol=1e-3, what="profile", nth=n)
                    j.mon.ok(np.isnan(x[1][0][~up]).all(), "curve", why="the lowest kilometre is left out")
                    j.mon.close(x[1][1], zz, "curve", atol=1e-6, what="height")
    # radiation and cloud water: averages and sums whose stamp is theirs; one step for all of a panel, a day apart
    step = None
    for n, day in enumerate(DAYS):
        olr, water, sp = -f["mtnlwrf"], f["tcw"] - f["tcwv"], f["sp"] / 100
        name = "OLR_06%d.png" % day
        if step is None:
            step = 77
            d = (j.files.get(name) or [[]])[0]
            d = next((x for a in d for x in a["draws"] if x[0] == "contourf"), None)
            if d is not None and len(d[1]) > 2 and d[1][2].shape == (181, 360):
                step = min((76, 77), key=lambda m: np.abs(d[1][2] - olr[m]).max())
        m = step + 4 * n
        if m > 119:
            break
        ax = j.field(name, "contourf", olr[m], LON, LAT, MAP, 1e-3, levels=np.arange(80, 390, 10))
        j.mon.ok(ax is None or "%d June" % day in ax["title"], "date", file=name, title=ax and ax["title"])
        name = "CW_06%d.png" % day
        ax = j.field(name, "contourf", water[m], LON, LAT, MAP, 1e-4, levels=np.arange(-0.1, 3.6, 0.1))
        j.mon.ok(ax is None or "%d June" % day in ax["title"], "date", file=name, title=ax and ax["title"])
        j.field(name, "contour", sp[m], LON, LAT, MAP, 1e-2, levels=np.arange(980, 1032, 4))


def budgets(f, j):
    """Figures 3 and S1: the change of wave activity from 20 to 26 June and what made it."""
    rows = slice(0, 90)
    fx, fy, zx, zy, src = terms(f, rows)
    change = running(f["lwa"][100] - f["lwa"][76], 5)[rows]
    parts = [running(DT * trapezoid(x, 76, 100), 5) for x in (zx, zy, src)]
    y = NH[rows]
    c80 = 1 / np.cos(np.deg2rad(80))
    rnd = 3e-7 * np.abs(fx).max() * 48 * 0.5 * DT / (2 * A * DL) * c80 + 1e-4
    tol = rnd + 2e-6 * max(np.abs(p[10:81]).max() for p in parts)
    j.mon.count("budget:tolerance-1e-6 m/s", int(1e6 * tol))
    lv = np.arange(-200, 220, 20)
    j.field("dLWA_0.png", "contourf", change, LON, y, MAP, 1e-4, levels=np.arange(-80, 90, 10))
    j.field("divFx+Fy_0.png", "contourf", parts[0] + parts[1], LON, y, MAP, tol, levels=lv)
    j.field("divFy_0.png", "contourf", parts[1], LON, y, MAP, tol, levels=lv)
    j.field("EP4_0.png", "contourf", parts[2], LON, y, MAP, tol, levels=lv)
    j.field("Residual_0.png", "contourf", change - sum(parts), LON, y, MAP, tol, levels=lv)
    # arrows: the mean flux of these six days less that of the six before
    want = [(trapezoid(x, 76, 100) - trapezoid(x, 52, 76)) / 24 for x in (fx, fy)]
    for name in ("divFx+Fy_0.png", "divFy_0.png", "Residual_0.png"):
        for ax in (j.files.get(name) or [[]])[0]:
            for kind, a, k in ax["draws"]:
                if kind != "quiver" or len(a) < 4:
                    continue
                x, yy, uu, vv = (np.ravel(q) for q in a[:4])
                s = (x >= 140) & (x <= 280) & (yy >= 10) & (yy <= 80)
                if not j.mon.ok(s.sum() > 50, "arrows-in-window", file=name, arrows=int(s.sum())):
                    continue
                ix, iy = np.round(x[s]).astype(int) % 360, np.round(yy[s]).astype(int)
                j.mon.count("checked:arrows")
                for n, (g, w) in enumerate(zip((uu, vv), want)):
                    j.mon.close(g[s], w[iy, ix], "arrows", atol=1e-5 * np.abs(w[10:81]).max(), what=(name, "xy"[n]))


def hovmoller(f, j):
    """Figure 4: time against longitude at 49 N."""
    row = slice(49, 50)
    fx, fy, zx, zy, src = terms(f, row)
    w, tend = f["lwa"][:, 49], np.zeros((124, 360))
    tend[1:-1] = (f["lwa"][2:, 49] - f["lwa"][:-2, 49]) / (2 * DT)
    smooth_ = [running(x, 4) for x in (zx[:, 0], zy[:, 0], src[:, 0])]
    t = np.arange(124) * 0.25
    win = (146, 280, 20, 29.5)
    tol = 1e4 * 6e-7 * np.abs(fx).max() / (2 * A * DL * np.cos(np.deg2rad(49)))
    j.field("HovmollerLWA.png", "contourf", w, LON, t, win, 1e-4, levels=np.arange(0, 135, 5))
    j.field("HovmollerFx.png", "contourf", fx[:, 0], LON, t, win, 1e-3, levels=np.arange(-100, 1500, 100))
    j.field("HovmollerRes.png", "contourf", 1e4 * (running(tend, 4) - sum(smooth_)), LON, t, win, tol,
            levels=np.arange(-10., 9, 1))
    j.field("HovmollerFxy.png", "contourf", 1e4 * sum(smooth_), LON, t, win, tol, levels=np.arange(-10., 9, 1))


def rerun(f):
    """Figure 5: wave activity of 26 June had the growth over 200-220 E been cut by 30 % and by all."""
    fx, fy, zx, zy, src = terms(f, slice(49, 50))
    n = 5
    lwa, flux = running(f["lwa"][:120, 49], n), running(fx[:120, 0], n)
    forc = [running(x[:120, 0], n) for x in (zx, zy, src)]
    total = sum(forc)
    mid = lambda x: x[:-1] + x[1:]                                                   # noqa: E731
    speed = mid(flux) / mid(lwa)
    growth = 2 * (np.diff(lwa, axis=0) / DT - 0.5 * mid(total)) / mid(lwa)
    change = lwa[100] - lwa[76]
    out = []
    k = np.arange(8640)
    # rates belong between the steps
    at = k / 360.0 - 0.5 + 76
    i0 = np.floor(at).astype(int)
    wt = (at - i0)[:, None]
    late = lambda x: x[i0] * (1 - wt) + x[i0 + 1] * wt                               # noqa: E731
    c, g = late(speed), late(growth)
    q0 = k // 360 + 76
    wq = ((k % 360) / 360.0)[:, None]
    base = lwa[q0] * (1 - wq) + lwa[q0 + 1] * wq
    dx = A * DL * np.cos(np.deg2rad(49))
    for cut in (0.3, 1.0):
        d = np.zeros_like(growth)
        box = (slice(84, 93), slice(200, 221))
        d[box] = -cut * np.maximum(growth[box], 0)
        dg = late(d)
        old, new = np.zeros(360), np.zeros(360)
        for m in range(1, 8640):
            flx = new * c[m]
            r = (-(np.roll(flx, -1) - np.roll(flx, 1)) / (2 * dx) + (dg[m] + g[m]) * new + dg[m] * base[m]
                 + 2e5 * (np.roll(old, -1) + np.roll(old, 1) - 2 * old) / dx ** 2)
            old, new = new, old + 120.0 * r
        out.append(change + new)
    return change, out


def blocked(f, j):
    change, want = rerun(f)
    ax = j.axes("dLWAp.png")
    if not ax:
        return
    curves = [x[1][1] for x in ax["draws"] if x[0] == "plot" and len(x[1]) > 1 and x[1][1].shape == (360,)]
    if not j.mon.ok(len(curves) >= 3, "drawn", file="dLWAp.png", curves=len(curves)):
        return
    scale = max(np.abs(w).max() for w in want)
    j.mon.sample({"change": float(np.abs(change).max()), "difference": [float(np.abs(w - change).max()) for w in want]})
    for what, w in (("observed", change), ("growth less 30 %", want[0]), ("no growth", want[1])):
        errs = [float(np.abs(c - w).max()) for c in curves]
        j.mon.count("checked:curve")
        j.mon.close(curves[int(np.argmin(errs))], w, "curve", atol=1e-5 * scale + 1e-4, what=what)


def run(case, mon):
    r = gen.rng_of(case["seed"], 34)
    script = os.path.join(str(stage.REPO), "scripts", "nhn_grl2022", "sample_run_script.py")
    with scratch():
        f = month(r)
        old, oldpath = sys.argv, list(sys.path)
        sys.argv = [script]
        sys.path.insert(0, os.path.dirname(script))
        sys.modules.pop("graph_plot_module", None)
        try:
            with led([]), Plotting() as rec, contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    runpy.run_path(script, run_name="__main__")
                except Exception as e:                                              # noqa: BLE001
                    mon.fail("script-ends", why=repr(e)[:400], figures=[n for n, _ in rec.saved][-3:])
        finally:
            sys.argv, sys.path[:] = old, oldpath
        j = Judge(mon, rec)
        maps(f, j)
        budgets(f, j)
        hovmoller(f, j)
        blocked(f, j)
    mon.nontrivial(case["seed"])
