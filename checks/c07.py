"""A reference state that did not converge is never passed off as one that did."""
import warnings

import numpy as np

from vf import gen, qg

ID = "C07"
RULE = ("QGFieldNH18 with the iteration limit swept across the (unknown) number of iterations each hemisphere "
        "needs, raising and warning mode, global and hemispheric; distinct = (state, outcome pattern)")
MIN = {"runs:flagged": 50, "runs:converged": 50, "runs:one-hemisphere": 3, "checked:blocked": 50,
       "checked:recovered": 20}


def cases(tier, seed):
    n = 160 if tier == "quick" else 6000
    out = qg.grid_cases(seed + 71, n, classes=("QGFieldNH18",),
                        flavors=["jet", "noise", "rough", "blocked", "gentle"], nh=(False, False, True))
    for c in out:
        if c.get("hi", 0) > 40:     # near the rounding floor the count of iterations is erratic
            for k in ("lo", "hi", "kmax", "nlon"):
                c.pop(k)
    return out


def attempt(q):
    """(flagged, raised, warned) of one compute_reference_states call."""
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        try:
            q.compute_reference_states(return_named_tuple=False)
            raised = None
        except ValueError as e:
            raised = str(e)
    warned = [str(x.message) for x in w if "converge" in str(x.message)]
    return q.nonconvergent_uref, raised, warned


def mirrored(d):
    m = dict(d)
    m["u"] = d["u"][:, ::-1].copy()
    m["v"] = -d["v"][:, ::-1].copy()
    m["t"] = d["t"][:, ::-1].copy()
    return m


def needs(d, tol):
    """Smallest iteration limit that is enough for the northern hemisphere of d."""
    q = gen.build(qg.cls_of("QGFieldNH18"), d, northern_hemisphere_results_only=True, tol=tol,
                  raise_error_for_nonconvergence=False)
    q.interpolate_fields(return_named_tuple=False)
    lo, hi = 1, 20000
    q.maxit = hi
    if attempt(q)[0]:
        return None, q
    while hi - lo > 1:
        mid = (lo + hi) // 2
        q.maxit = mid
        if attempt(q)[0]:
            lo = mid
        else:
            hi = mid
    return hi, q


def run(case, mon):
    d = qg.case_of(case)
    r = gen.rng_of(case["seed"], 70)
    tol = float(r.choice([1e-5, 3e-5, 1e-4]))
    nn, _ = needs(d, tol)
    ns, _ = needs(mirrored(d), tol)
    mon.record = {"converges": nn is not None}
    if nn is None or ns is None or max(nn, ns) > 800:
        mon.count("never-converges")
        return
    mon.count("iterations", nn + ns)
    nh = case["nh"]
    # both hemispheres alone need a few hundred iterations: with the default limit nothing may be flagged
    ref = gen.build(qg.cls_of("QGFieldNH18"), d, tol=tol, northern_hemisphere_results_only=nh)
    ref.interpolate_fields(return_named_tuple=False)
    flag, raised, warned = attempt(ref)
    if not mon.ok(not flag and raised is None and not warned, "converged-is-not-flagged", needs=(nn, ns),
                  flag=bool(flag), raised=raised, warned=warned):
        return
    want = {n: np.array(getattr(ref, n)) for n in qg.FIELDS_REF}
    limits = {1, 2, 3, nn - 1, nn, nn + 1, (nn + ns) // 2, max(nn, ns) * 2 + 50, max(2, min(nn, ns) // 2)}
    limits |= {int(0.85 * ns) - 3, int(1.15 * ns) + 4, int(0.9 * nn), int(1.1 * nn) + 4}
    # the mirrored state is the southern hemisphere up to rounding: its need is known within a few steps
    limits = sorted(m for m in limits if m > 0 and (nh or abs(m - ns) > 3 + 0.08 * ns))
    pattern = []
    for raising in (True, False):
        q = gen.build(qg.cls_of("QGFieldNH18"), d, tol=tol, maxit=limits[0],
                      northern_hemisphere_results_only=nh, raise_error_for_nonconvergence=raising)
        q.interpolate_fields(return_named_tuple=False)
        order = list(limits)
        r.shuffle(order)
        for m in order:
            q.maxit = int(m)
            bad = m < nn or (not nh and m < ns)
            if not nh and (m < nn) != (m < ns):
                mon.count("runs:one-hemisphere")
            flag, raised, warned = attempt(q)
            ok = mon.ok(bool(flag) == bad, "flag", maxit=m, needs=(nn, ns), raising=raising, flag=bool(flag))
            pattern.append(int(bool(flag)))
            if bad:
                mon.count("runs:flagged")
                if raising:
                    mon.ok(raised is not None, "raises", maxit=m, needs=(nn, ns))
                else:
                    mon.ok(raised is None, "does-not-raise", why=raised)
                    mon.ok(len(warned) > 0, "warns", maxit=m, needs=(nn, ns))
                    if not nh:
                        for name, lim in (("Northern", nn), ("Southern", ns)):
                            told = any(name in x for x in warned)
                            mon.ok(told == (m < lim), "names-the-hemisphere", name=name, warned=warned)
                # nothing downstream runs on it
                mon.raises(ValueError, lambda: q.compute_lwa_and_barotropic_fluxes(return_named_tuple=False),
                           "blocked", maxit=m)
                mon.raises(ValueError, q.compute_layerwise_lwa_fluxes, "blocked", maxit=m)
                if not raising:
                    q.compute_lwa_only()
                    mon.ok(np.isfinite(q.lwa_baro).all() and q.lwa_baro.max() > 0, "lwa-only-still-works")
                    mon.equal(q.qref, want["qref"], "qref-unaffected")
            elif ok:
                mon.count("runs:converged")
                mon.ok(raised is None and not warned, "silent-when-converged", raised=raised, warned=warned)
                for n in want:
                    mon.equal(getattr(q, n), want[n], "recovered", name=n, maxit=m)
                q.compute_lwa_and_barotropic_fluxes(return_named_tuple=False)
    mon.nontrivial((case["seed"], pattern))
    mon.sample({"case": case, "needs": [nn, ns], "limits": limits, "tol": tol})


def combine(records):
    """A solver that calls every state nonconvergent, however many iterations it is given, says nothing."""
    rec = [(c, r) for c, r in records if r]
    n = sum(r["converges"] for _, r in rec)
    found = []
    if len(rec) >= 40 and n < 0.05 * len(rec):
        found.append(("nothing-ever-converges", rec[0][0], {"states": len(rec), "converged": n}))
    return found, {"states:converging": n}
