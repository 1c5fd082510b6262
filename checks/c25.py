"""The hemispheric functions: each hemisphere is treated by itself, the Northern one as the mirror image of the Southern."""
import numpy as np

from vf import baro, gen

ID = "C25"
RULE = ("random fields on latitude grids symmetric about the equator (odd/even/Gaussian), with default or given extent "
        "of the hemispheric domains and number of contours, through all hemispheric functions; references and wave "
        "activity per hemisphere against the definition; distinct = case with a non-constant field")
MIN = {"checked:south-reference": 1000, "checked:north-reference": 1000, "checked:south-lwa": 500, "checked:north-lwa": 500,
       "checked:bracket-south": 100, "checked:bracket-north": 100, "overlap": 50, "gap": 100, "checked:north-theta-lwa": 80}


def cases(tier, seed):
    n = 700 if tier == "quick" else 30000
    return [dict(seed=int(seed * 1009 + i)) for i in range(n)]


def hemis(nlat, ns):
    """Rows of the two domains, and which rows of each are its own (the Northern domain is written last)."""
    s = np.arange(ns)
    n = np.arange(nlat - ns, nlat)
    return s, n, s[~np.isin(s, n)]


class Case:
    def __init__(self, r, mon):
        self.kind, self.y, x = baro.grid(r, symmetric=True)
        self.n, self.m = self.y.size, x.size
        n = self.n
        self.a = float(r.choice([6.378e6, 6.378e6, 1.0, 3.39e6]))
        self.ak, area = baro.areas(r, self.y, self.m, self.a)
        area = 0.5 * (area + area[::-1])          # the functions take the Southern areas for both
        self.area = area
        self.dmu = self.a * np.abs(np.cos(np.deg2rad(self.y))) * np.gradient(np.deg2rad(self.y))
        self.kw = {}
        k = r.random()
        if k < 0.4:
            self.ns = n // 2
        elif k < 0.7:
            self.ns = (n + 1) // 2
            self.kw["nlat_s"] = self.ns
        else:
            self.ns = int(r.integers(2, (n + 1) // 2 + 1))
            self.kw["nlat_s"] = self.ns
        self.np = self.ns
        if r.random() < 0.6:
            self.np = self.kw["n_points"] = int(r.integers(2, 80))
        if self.a != 6.378e6 or r.random() < 0.3:
            self.kw["planet_radius"] = self.a
        self.s, self.nn, self.own = hemis(n, self.ns)
        mon.count("overlap", 2 * self.ns > n)
        mon.count("gap", 2 * self.ns < n)

    def outside(self, mon, a, mech="outside-is-zero"):
        rows = np.setdiff1d(np.arange(self.n), np.concatenate([self.s, self.nn]))
        mon.equal(np.asarray(a)[..., rows, :] if np.asarray(a).ndim > 1 else np.asarray(a)[rows],
                  np.zeros((rows.size, self.m)) if np.asarray(a).ndim > 1 else np.zeros(rows.size), mech)

    def refs(self, mon, q, v, sign=-1.0, **detail):
        """q against the rearrangement of each hemisphere (sign -1: PV, +1: symmetric quantity such as theta)."""
        ns, own = self.ns, self.own
        yy = self.y[:ns]
        v = np.asarray(v)
        for hemi in "SN":
            h = v[:ns] if hemi == "S" else sign * v[::-1][:ns]
            got = q[:ns] if hemi == "S" else sign * q[::-1][:ns]
            R = baro.Rearrangement(h, self.area[:ns], self.np, self.a)
            if R.beyond:
                mon.count("areas-beyond-sphere")
                continue
            lo, hi = R.bounds(yy)
            tol = 1e-10 * R.range + 1e-14 * np.abs(R.b).max() + 1e-300
            keep = own if hemi == "S" else np.arange(ns)
            mon.within(got[keep], lo[keep], hi[keep], ("south" if hemi == "S" else "north") + "-reference", tol=tol,
                       n_points=self.np, areas=self.ak, **detail)
        self.outside(mon, q)

    def lwas(self, mon, lw, v, q, force=None, sig=None, **detail):
        """Wave activity against the definition with the reference that was returned."""
        ns = self.ns
        own = self.own
        for hemi in "SN":
            sl = slice(0, ns) if hemi == "S" else slice(self.n - ns, self.n)
            # where the domains share a row the Northern one is what is returned: the rest of the South is its own
            want, fs, amb = baro.lwa(np.asarray(v)[sl], q[sl], self.dmu[sl], None if force is None else force[sl])
            keep = own if hemi == "S" else np.arange(ns)
            name = "south" if hemi == "S" else "north"
            scale = (np.abs(np.asarray(v, dtype=float)).max() + np.abs(q).max()) * np.abs(self.dmu).sum()
            mon.close(lw[sl][keep], want.sum(0)[keep], name + "-lwa", atol=1e-12 * scale + 1e-300, **detail)
            if force is not None:
                mon.close(sig[sl][keep], fs[keep], name + "-forcing",
                          atol=amb[keep] + 1e-12 * np.abs(force).max() * np.abs(self.dmu).sum() + 1e-300, **detail)
        self.outside(mon, lw)
        if sig is not None:
            self.outside(mon, sig)

    def brackets(self, mon, br, v, g, **detail):
        ns = self.ns
        yy = self.y[:ns]
        v = np.asarray(v, dtype=float)
        for hemi in "SN":
            h = v[:ns] if hemi == "S" else -v[::-1][:ns]
            gg = g[:ns] if hemi == "S" else g[::-1][:ns]
            got = br[:ns] if hemi == "S" else br[::-1][:ns]
            R = baro.Rearrangement(h, self.area[:ns], self.np, self.a)
            if R.beyond or R.tied:
                mon.count("bracket-tied")
                continue
            dp = R.bin_means(gg)
            b = np.zeros(self.np)
            b[1:-1] = 0.5 * (dp[:-2] + dp[2:])
            lo, hi = R.spread(yy, b)
            keep = self.own if hemi == "S" else np.arange(ns)
            mon.within(got[keep], lo[keep], hi[keep], "bracket-" + ("south" if hemi == "S" else "north"),
                       tol=1e-9 * np.abs(g).max() + 1e-300, **detail)
        self.outside(mon, br)


def run(case, mon):
    from falwa import wrapper
    r = gen.rng_of(case["seed"], 25)
    c = Case(r, mon)
    x = np.arange(c.m) * 360.0 / c.m
    fk, v = baro.field(r, c.y, x)
    v = baro.layout(r, v)
    force = r.normal(size=(c.n, c.m)) * 1e-9
    g = baro.field(r, c.y, x)[1] * 1.0
    args = baro.Args(y=c.y, v=v, area=c.area, dmu=c.dmu, force=force, g=g)
    mon.count("field:" + fk)
    if np.ptp(v) > 0:
        mon.nontrivial([case["seed"]])
    d = dict(flavor=fk)

    q = wrapper.eqvlat_hemispheric(c.y, v, c.area, **c.kw)
    c.refs(mon, q, v, fn="eqvlat_hemispheric", **d)

    q, br = wrapper.eqvlat_bracket_hemispheric(c.y, v, c.area, **c.kw)
    mon.ok(br is None, "no-bracket-unasked")
    c.refs(mon, q, v, fn="eqvlat_bracket_hemispheric", **d)
    q, br = wrapper.eqvlat_bracket_hemispheric(c.y, v, c.area, vgrad=g, **c.kw)
    c.refs(mon, q, v, fn="eqvlat_bracket_hemispheric", **d)
    c.brackets(mon, br, v, g, fn="eqvlat_bracket_hemispheric", **d)

    q, lw = wrapper.qgpv_eqlat_lwa(c.y, v, c.area, c.dmu, **c.kw)
    c.refs(mon, q, v, fn="qgpv_eqlat_lwa", **d)
    c.lwas(mon, lw, v, q, fn="qgpv_eqlat_lwa", **d)

    q, lw, sig = wrapper.qgpv_eqlat_lwa_ncforce(c.y, v, force, c.area, c.dmu, **c.kw)
    c.refs(mon, q, v, fn="qgpv_eqlat_lwa_ncforce", **d)
    c.lwas(mon, lw, v, q, force, sig, fn="qgpv_eqlat_lwa_ncforce", **d)

    kw = dict(c.kw)
    has_g, has_f = bool(r.random() < 0.5), bool(r.random() < 0.5)
    if has_g:
        kw["vgrad"] = g
    if has_f:
        kw["ncforce"] = force
    out = wrapper.qgpv_eqlat_lwa_options(c.y, v, c.area, c.dmu, **kw)
    mon.ok(set(out) == {"qref", "lwa_result"} | ({"brac_result"} if has_g else set()) | ({"capsigma"} if has_f else set()),
           "options-as-asked", got=sorted(out))
    c.refs(mon, out["qref"], v, fn="qgpv_eqlat_lwa_options", **d)
    c.lwas(mon, out["lwa_result"], v, out["qref"], force if has_f else None, out.get("capsigma"),
           fn="qgpv_eqlat_lwa_options", **d)
    if has_g:
        c.brackets(mon, out["brac_result"], v, g, fn="qgpv_eqlat_lwa_options", **d)

    # prescribed reference
    kw = {k: c.kw[k] for k in c.kw if k != "n_points"}
    qp = np.sort(r.uniform(v.min(), v.max(), c.n)) if r.random() < 0.5 else np.asarray(v, dtype=float).mean(1)
    lw = wrapper.qgpv_input_qref_to_compute_lwa(c.y, qp, v, c.area, c.dmu, **kw)
    c.lwas(mon, lw, v, qp, fn="qgpv_input_qref_to_compute_lwa", **d)

    # potential temperature: the same in both hemispheres, colder towards the poles
    th = 300.0 - 40.0 * np.sin(np.deg2rad(c.y))[:, None] ** 2 + r.normal(size=(c.n, 1)) * 0.5 * float(r.random() < 0.5) \
        + (0.0 if r.random() < 0.3 else 3.0) * r.normal(size=(c.n, c.m))
    q, lw = wrapper.theta_lwa(c.y, th, c.area, c.dmu, **c.kw)
    c.refs(mon, q, th, sign=1.0, fn="theta_lwa", **d)
    ns = c.ns
    for hemi in "SN":
        h = th[:ns] if hemi == "S" else th[::-1][:ns]
        qq = q[:ns] if hemi == "S" else q[::-1][:ns]
        got = lw[:ns] if hemi == "S" else lw[::-1][:ns]
        dm = c.dmu[:ns] if hemi == "S" else c.dmu[::-1][:ns]
        want = baro.lwa(h, qq, dm)[0].sum(0)
        keep = c.own if hemi == "S" else np.arange(ns)
        mon.close(got[keep], want[keep], ("south" if hemi == "S" else "north") + "-theta-lwa",
                  atol=1e-12 * 400 * np.abs(dm).sum())
    c.outside(mon, lw)
    # the mirror image has the mirrored wave activity
    lw2 = wrapper.theta_lwa(c.y, th[::-1], c.area[::-1], c.dmu[::-1], **c.kw)[1]
    if 2 * ns <= c.n:
        mon.close(lw2, lw[::-1], "theta-mirror", atol=1e-9 * 400 * np.abs(c.dmu).sum())
    args.check(mon)
