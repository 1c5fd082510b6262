"""Results depend on the inputs alone: not on what was computed before, elsewhere, or at the same time."""
import hashlib
import sys
import threading

import numpy as np

from vf import gen, pristine, qg
from vf import relate
from vf.mon import Skip

ID = "C17"
RULE = ("repeated and interleaved calls on several QGField objects, other memory layouts and precisions of the same "
        "input, threads; each object's results against those of a fresh object called once; distinct = history")
MIN = {"checked:history": 500, "checked:inputs-untouched": 60, "checked:layout": 200, "checked:threads": 100,
       "histories:interleaved-objects": 20, "histories:twin-fields": 5, "histories:twin-constants": 5}


def cases(tier, seed):
    n = int(120 * 2.5) if tier == "quick" else 4500
    out = qg.grid_cases(seed + 171, n, parities=("odd", "odd", "even", "offset"))
    for c in out:
        if c.get("hi", 0) > 40:
            for k in ("lo", "hi", "kmax", "nlon"):
                c.pop(k)
    return out


def alone(cls, d, ncf, ex):
    return qg.grab(qg.run(cls, d, "layer", ncforce=ncf, **ex))


def twin(d, what, r):
    """Another atmosphere on the same axes, or the same arrays on another planet."""
    m = dict(d, kw=dict(d["kw"]))
    if what == "twin-fields":
        w = r.uniform(0.3, 0.9)
        for n in ("u", "v", "t"):
            z = d[n].mean(-1, keepdims=True)
            m[n] = np.ascontiguousarray(np.roll(z + w * (d[n] - z), 1, axis=-1))
        m["u"] = m["u"] * 0.8
    else:       # not the heights: the levels still reach the top
        if not m["kw"].get("data_on_evenly_spaced_pseudoheight_grid"):
            m["kw"]["scale_height"] = m["H"] = float(d["H"] * r.uniform(1.01, 1.1))
        m["kw"]["planet_radius"] = m["a"] = float(d["a"] * r.uniform(0.9, 1.1))
        m["kw"]["omega"] = m["om"] = float(d["om"] * r.uniform(0.95, 1.1))
        m["kw"]["cp"] = m["cp"] = float(d["cp"] * r.uniform(0.98, 1.05))
    return m


class Obj:
    """A QGField, the results of an object alone in its process, and what remains to be called on it."""

    def __init__(self, case, r, d=None):
        self.case = case
        self.d = qg.case_of(case) if d is None else d
        ny = self.d["ylat"].size + (self.d["ylat"].size + 1) % 2
        shape = (self.d["kmax"], ny, self.d["xlon"].size)
        self.ncf = 1e-10 * r.standard_normal(shape) if r.random() < 0.5 else None
        self.ncf2 = 1e-10 * r.standard_normal(shape)
        self.ex = qg.extra_of(case)
        out = pristine.call(alone, case["cls"], self.d, self.ncf, self.ex)
        if out[0] == "err":
            if out[1] == "Skip":
                raise Skip(out[2])
            raise ValueError(f"{out[1]}: {out[2]}\n{out[3]}")
        self.want = out[1]

    def digest(self):
        h = hashlib.sha1()
        for n in ("xlon", "ylat", "plev", "u", "v", "t"):
            h.update(self.d[n].tobytes())
        for n in (self.ncf, self.ncf2):
            h.update(b"" if n is None else n.tobytes())
        return h.hexdigest()

    def fresh(self, layout=None):
        m = dict(self.d)
        for n in ("u", "v", "t"):
            m[n] = layout(m[n]) if layout else m[n]
        return qg.run(self.case["cls"], m, "build", **self.ex)

    def history(self, r):
        """Calls that end with everything computed from this object's inputs."""
        calls = []
        for stage in ("interp", "ref"):
            calls += [stage] * int(r.integers(1, 3))
            if stage == "ref" and r.random() < 0.3:
                calls += ["interp", "ref"]
        for _ in range(int(r.integers(0, 5))):
            calls.append(str(r.choice(["baro2", "layer2", "only", "ref", "read", "baro", "layer", "interp"])))
            if calls[-1] == "interp":
                calls.append("ref")
        calls += ["baro", "layer"] if r.random() < 0.5 else ["layer", "baro"]
        return calls

    def call(self, q, c):
        if c == "interp":
            q.interpolate_fields(return_named_tuple=bool(len(self.want) % 2))
        elif c == "ref":
            q.compute_reference_states()
        elif c in ("baro", "baro2"):
            q.compute_lwa_and_barotropic_fluxes(ncforce=self.ncf if c == "baro" else self.ncf2)
        elif c in ("layer", "layer2"):
            q.compute_layerwise_lwa_fluxes(ncforce=self.ncf if c == "layer" else self.ncf2)
        elif c == "only":
            q.compute_lwa_only()
        elif c == "read":
            for n in qg.FIELDS_INTERP + qg.FIELDS_REF:
                getattr(q, n)

    def compare(self, mon, q, mech, **detail):
        got = qg.grab(q)
        for n in qg.ALL:
            if n == "lwa":   # the sum of two parts is rounded by one entry point and not by the other
                mon.close(np.abs(got[n]), np.abs(self.want[n]), mech, rtol=3e-7, name=n,
                          atol=2e-7 * self.d["a"] * np.abs(self.want["qgpv"]).max(), **detail)
            else:
                mon.equal(got[n], self.want[n], mech, name=n, **detail)


def whole_numbers(case, mon, r):
    """Coordinates and fields given as integers are the numbers they are."""
    ny = int(r.choice([13, 19, 31, 18, 30]))
    y = np.linspace(-90, 90, ny) if ny % 2 else -90 + 180 // ny * (np.arange(ny) + 0.5)
    if not ny % 2 and (180 // ny) % 2:
        y = np.linspace(-85, 85, 18)    # whole degrees
    x = np.arange(int(r.choice([8, 12, 24])))
    x = x * (360 // x.size)
    p = np.array([1000, 950, 900, 850, 775, 700, 600, 500, 400, 300, 250, 200, 150, 100])
    u, v, t = gen.state(r, p.astype(float), y, x, 7000.0, 287.0 / 1004.0, case["flavor"])
    m = dict(xlon=x.astype(float), ylat=y, plev=p.astype(float), u=np.rint(u), v=np.rint(v), t=np.rint(t),
             kw=dict(kmax=int(r.integers(8, 17))))
    which = [n for n in ("xlon", "ylat", "plev", "u", "v", "t") if r.random() < 0.6]
    dt = str(r.choice(["i2", "i4", "i8"]))
    w = dict(m, **{n: m[n].astype(dt if n in "uvt" or dt != "i2" else "i4") for n in which})
    upto = "interp" if case["cls"] == "QGFieldNH18" else "layer"
    ex = dict(qg.extra_of(case))
    if "eq_boundary_index" in ex or case["cls"] == "QGFieldNHN22":
        ex["eq_boundary_index"] = min(2, ex.get("eq_boundary_index", 2))
    ex.pop("tol", None)
    a, b = (qg.run(case["cls"], z, upto, **ex) for z in (m, w))
    for n in qg.FIELDS_INTERP if upto == "interp" else qg.ALL:
        g, h = (np.asarray(getattr(z, n), float) for z in (b, a))
        mon.close(g, h, "integer-input", name=n, of=which, dtype=dt, rtol=1e-12)


def run(case, mon):
    pristine.serve()
    r = gen.rng_of(case["seed"], 17)
    other = dict(case, seed=case["seed"] + 1, cls=str(r.choice(qg.CLASSES)), flavor=str(r.choice(gen.FLAVORS)))
    objs = [Obj(case, r)]
    kind = str(r.choice(["alone", "alone", "other", "twin-fields", "twin-constants"]))
    if kind != "alone":
        if kind == "other":
            objs.append(Obj(other, r))
        else:
            same = dict(case, cls=str(r.choice(qg.CLASSES)), nh=bool(r.random() < 0.5))
            try:
                objs.append(Obj(same, r, twin(objs[0].d, kind, r)))
            except Skip:
                kind = "alone"
    if kind != "alone":
        mon.count("histories:interleaved-objects")
        mon.count("histories:" + kind)
    before = [o.digest() for o in objs]
    # one history per object, merged in a random order
    qs = [o.fresh() for o in objs]
    hs = [o.history(r) for o in objs]
    todo = [list(h) for h in hs]
    merged = []
    while any(todo):
        i = int(r.choice([j for j, t in enumerate(todo) if t]))
        c = todo[i].pop(0)
        merged.append((i, c))
        objs[i].call(qs[i], c)
    for o, q in zip(objs, qs):
        o.compare(mon, q, "history", merged=merged)
    for o, b in zip(objs, before):
        mon.ok(o.digest() == b, "inputs-untouched", merged=merged)
    # the same numbers in another memory layout, or read-only
    o = objs[0]

    def readonly(a):
        b = a.copy()
        b.flags.writeable = False
        return b

    layouts = {"fortran": np.asfortranarray, "readonly": readonly,
               "strided": lambda a: np.repeat(a, 2, axis=-1)[..., ::2], "negative": lambda a: a[:, ::-1].copy()[:, ::-1]}
    name = str(r.choice(list(layouts)))
    q = o.fresh(layouts[name])
    for c in ("interp", "ref", "baro", "layer"):
        o.call(q, c)
    got = qg.grab(q)
    if name == "readonly":
        o.compare(mon, q, "layout", layout=name)
    else:       # numpy adds up in another order
        ctx = relate.Context(qg.grab(qg.run(case["cls"], qg.analysis_case(o.d), "layer", **o.ex)), o.d, case, o.ncf)
        for n in qg.ALL:
            relate.compare(mon, "layout", n, got[n], o.want[n], ctx)
    # single-precision input is the same as its double-precision value
    s = Obj.__new__(Obj)
    s.__dict__.update(o.__dict__)
    s.d = dict(o.d, **{n: o.d[n].astype(np.float32).astype(float) for n in ("u", "v", "t")})
    a = s.fresh()
    b = s.fresh(lambda x: x.astype(np.float32))
    for q in (a, b):
        q.interpolate_fields(return_named_tuple=False)
    for n in qg.FIELDS_INTERP:
        w = np.asarray(getattr(a, n), float)
        mon.close(getattr(b, n), w, "single-precision-input", rtol=1e-4 if n == "qgpv" else 1e-6)
    whole_numbers(case, mon, r)
    # concurrently
    if case["seed"] % 3 == 0:
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        out, errs = {}, []

        def work(i):
            try:
                o = objs[i % len(objs)]
                q = o.fresh()
                for c in o.history(gen.rng_of(case["seed"], 100 + i)):
                    o.call(q, c)
                out[i] = q
            except BaseException as e:  # noqa: BLE001
                errs.append(f"{type(e).__name__}: {e}")
        ts = [threading.Thread(target=work, args=(i,)) for i in range(4)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        sys.setswitchinterval(old)
        if mon.ok(not errs, "threads-fail", errors=errs):
            for i, q in out.items():
                objs[i % len(objs)].compare(mon, q, "threads")
    mon.nontrivial(merged)
    mon.sample({"case": case, "history": merged, "layout": name})
