"""Parent process of a check: stages /repo, runs the cases, gives the verdict."""
import argparse
import importlib
import json
import os
import pathlib
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import cover
from . import stage as st
from .mon import jsonable

ROOT = pathlib.Path(__file__).resolve().parent.parent
KNOWN = ROOT / "KNOWN_FINDINGS.txt"
NPROC = int(os.environ.get("VF_NPROC", "8"))


def known_findings(cid):
    """mechanism -> text for the lines `known: property=<id> mechanism=<key> <text>`."""
    out = {}
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            if not line.startswith("known:"):
                continue
            parts = line[len("known:"):].split(None, 2)
            if len(parts) < 3 or parts[0] != f"property={cid}":
                continue
            out[parts[1].split("=", 1)[1]] = parts[2]
    return out


class Inconclusive(Exception):
    pass


LINES = {}      # library file -> lines some worker of this run executed


def lines_seen():
    """Evidence: executed / executable lines of the library files this check touched beyond importing them."""
    out = {}
    for f, got in sorted(LINES.items()):
        path = st.REPO / ("src/" + f if f.startswith("falwa/") else f)
        try:
            every = cover.executable(str(path))
        except (OSError, SyntaxError, ValueError):
            continue
        out[f] = f"{len(got & every)}/{len(every)}"
    return out


def run_workers(cid, mod, cases, stage_dir, scratch, budget, env_extra, watchdog):
    """Returns (results, crashes, harness_errors, skipped)."""
    pending = list(enumerate(cases))
    n = min(NPROC, getattr(mod, "WORKERS", NPROC))
    shares = [pending[i::n] for i in range(n)]
    results, crashes, harness, skipped = {}, [], [], []
    t_start = time.monotonic()
    t_end = t_start + budget
    live = []
    seq = 0

    def spawn(share):
        nonlocal seq
        out = pathlib.Path(scratch) / f"out-{seq}.jsonl"
        err = pathlib.Path(scratch) / f"err-{seq}.txt"
        out.write_text("")
        seq += 1
        env = st.base_env()
        env["PYTHONPATH"] = str(ROOT)
        env["MPLCONFIGDIR"] = str(pathlib.Path(scratch) / "mpl")
        env["TMPDIR"] = str(scratch)
        env["MALLOC_PERTURB_"] = "61"      # fresh memory holds -4.1e13 (-97 in single precision), not zeros by luck
        env.update(env_extra)
        # the worker's own collection of the crash matters, not a core file
        p = subprocess.Popen(
            [st.VENV_BIN + "/python", "-m", "vf.worker", cid, str(stage_dir), str(out),
             str(max(1.0, t_end - time.monotonic()))],
            cwd=str(scratch), env=env, stdin=subprocess.PIPE,
            stdout=subprocess.DEVNULL, stderr=open(err, "wb"))
        try:
            p.stdin.write(json.dumps(share).encode())
            p.stdin.close()
        except BrokenPipeError:
            pass
        live.append({"p": p, "out": out, "err": err, "share": share,
                     "last": time.monotonic(), "size": 0})

    for s in shares:
        if s:
            spawn(s)
    hung = []
    while live:
        time.sleep(0.05)
        for w in list(live):
            rc = w["p"].poll()
            size = w["out"].stat().st_size
            if size != w["size"]:
                w["size"], w["last"] = size, time.monotonic()
            if rc is None:
                if time.monotonic() - w["last"] > watchdog:
                    w["p"].kill()
                    w["p"].wait()
                    hung.append(w)
                    rc = "hung"
                else:
                    continue
            live.remove(w)
            started, done = None, False
            seen = set()
            for line in w["out"].read_text().splitlines():
                try:
                    ev = json.loads(line)
                except ValueError:
                    continue
                if ev["ev"] == "start":
                    started = ev["i"]
                elif ev["ev"] == "end":
                    results[ev["i"]] = ev["r"]
                    seen.add(ev["i"])
                    started = None
                elif ev["ev"] == "harness":
                    harness.append((ev["i"], ev["tb"]))
                    seen.add(ev["i"])
                    started = None
                elif ev["ev"] == "skip":
                    skipped.append(ev["i"])
                    seen.add(ev["i"])
                elif ev["ev"] == "done":
                    done = True
                    for f, ln in ev.get("lines", {}).items():
                        LINES.setdefault(f, set()).update(ln)
            if done:
                continue
            tail = w["err"].read_text(errors="replace")[-6000:]
            if started is None:
                harness.append((-1, f"worker ended early rc={rc}\n{tail}"))
                continue
            if rc == "hung":
                harness.append((started, f"watchdog: no progress for {watchdog}s"))
            elif rc == -signal.SIGKILL:
                harness.append((started, "worker was killed (memory?)"))
            else:
                crashes.append((started, rc, tail))
            rest = [c for c in w["share"] if c[0] not in seen and c[0] != started]
            if rest and len(crashes) + len(harness) < 6:
                spawn(rest)
    return results, crashes, harness, skipped


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    cid = a.cid.upper()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.monotonic()
    sys.path.insert(0, str(ROOT))
    mod = importlib.import_module("checks." + cid.lower())
    assert mod.ID == cid
    if a.replay:
        rep = json.loads(pathlib.Path(a.replay).read_text())
        cases = [rep["case"]]
    else:
        cases = list(mod.cases(tier, seed))
    budget = float(getattr(mod, "BUDGET", {}).get(tier, 150 if tier == "quick" else 600))
    watchdog = float(getattr(mod, "WATCHDOG", 120))
    ev_dir = ROOT / "evidence"
    ev_dir.mkdir(exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=f"vf-{cid.lower()}-")
    try:
        kinds = getattr(mod, "BUILDS", ["plain"])
        agg_results, crashes, harness, skipped = {}, [], [], []
        by_kind = {}
        for n, c in enumerate(cases):
            by_kind.setdefault(c.get("build", kinds[0]), []).append((n, c))
        for kind, lst in by_kind.items():
            try:
                sd = st.stage(scratch, kind)
            except (st.StageError, subprocess.TimeoutExpired) as e:
                print(f"ERROR: cannot stage /repo ({kind}): {e}")
                return 3
            env_extra = getattr(mod, "ENV", {}).get(kind, {})
            if callable(env_extra):
                env_extra = env_extra()
            r, c, h, s = run_workers(cid, mod, [x[1] for x in lst], sd, scratch, budget / len(by_kind),
                                     env_extra, watchdog)
            back = {i: lst[i][0] for i in range(len(lst))}
            agg_results.update({back[i]: v for i, v in r.items()})
            crashes += [(back[i], rc, t) for i, rc, t in c]
            harness += [(back.get(i, -1), t) for i, t in h]
            skipped += [back[i] for i in s]
        return verdict(mod, cid, tier, seed, cases, agg_results, crashes, harness, skipped, ev_dir, t0, a)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def verdict(mod, cid, tier, seed, cases, results, crashes, harness, skipped, ev_dir, t0, a):
    counters, distinct, samples, margins, viol = {}, set(), [], {}, []
    for i in sorted(results):
        r = results[i]
        for k, v in r["counters"].items():
            counters[k] = counters.get(k, 0) + v
        distinct.update(r["distinct"])
        if len(samples) < 4:
            samples += r["samples"]
        for k, v in r["margins"].items():
            margins[k] = max(margins.get(k, 0.0), v)
        for v in r["violations"]:
            viol.append(dict(v, case=cases[i]))
    if hasattr(mod, "combine") and not a.replay:
        # facts about several runs: [(mechanism, case, detail)] and counters
        found, more = mod.combine([(cases[i], results[i].get("record")) for i in sorted(results)])
        viol += [{"mechanism": m, "case": c, "detail": jsonable(dt)} for m, c, dt in found]
        for k, v in more.items():
            counters[k] = counters.get(k, 0) + v
    crash_mech = getattr(mod, "crash_mechanism", None)
    for i, rc, tail in crashes:
        mech = crash_mech(cases[i], rc, tail) if crash_mech else f"process-death:{rc}"
        viol.append({"mechanism": mech, "case": cases[i], "detail": {"rc": rc, "stderr": tail[-3000:]}})
    known = known_findings(cid)
    hit, fresh = {}, []
    for v in viol:
        if v["mechanism"] in known:
            hit[v["mechanism"]] = hit.get(v["mechanism"], 0) + 1
        else:
            fresh.append(v)
    evaluations = len(results) + len(crashes)
    coverage = {
        "evaluations": evaluations,
        "distinct_nontrivial": len(distinct),
        "rule": mod.RULE,
        "samples": samples[:4] or [jsonable(cases[0])] if cases else [],
        "observed": {k: v for k, v in sorted(counters.items())},
        "largest_error_over_tolerance": {k: float(f"{v:.3g}") if v == v and v != float("inf") else str(v)
                                         for k, v in sorted(margins.items())},
        "cases_planned": len(cases),
        "cases_not_run_for_time": len(skipped),
        "library_lines_executed": lines_seen(),
    }
    ev = {
        "property": cid, "tier": tier, "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": coverage,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(fresh),
        "known_findings_seen": sorted(hit),
    }
    if os.environ.get("VF_LINES_OUT"):
        pathlib.Path(os.environ["VF_LINES_OUT"]).write_text(json.dumps({f: sorted(v) for f, v in LINES.items()}))
    if not a.replay:
        (ev_dir / f"{cid}.json").write_text(json.dumps(ev, indent=1) + "\n")
    for m in sorted(hit):
        print(f"KNOWN-FINDING: property={cid} {known[m]} [{m}, seen {hit[m]}x]")
    if fresh:
        rdir = ev_dir / "replay"
        rdir.mkdir(exist_ok=True)
        done = {}
        for v in fresh:
            n = done.get(v["mechanism"], 0)
            done[v["mechanism"]] = n + 1
            if n:
                continue
            safe = "".join(ch if ch.isalnum() else "_" for ch in v["mechanism"])[:60]
            path = rdir / f"{cid}-{tier}-{seed}-{safe}.json"
            path.write_text(json.dumps({"property": cid, "tier": tier, "seed": seed,
                                        "case": v["case"], "mechanism": v["mechanism"],
                                        "detail": v["detail"]}, indent=1) + "\n")
            print(f"VIOLATION property={cid} replay={path}")
            print(f"  mechanism={v['mechanism']} detail={json.dumps(v['detail'])[:900]}")
        return 1
    if harness:
        for i, tb in harness[:3]:
            print(f"ERROR: harness, case {i}: {tb}")
        return 3
    need = getattr(mod, "MIN", {})
    if not a.replay:
        for k, n in need.items():
            if counters.get(k, 0) < n:
                print(f"INCONCLUSIVE: monitor '{k}' observed {counters.get(k, 0)} < {n} events")
                return 4
        if not distinct:
            print("INCONCLUSIVE: nothing non-trivial was observed")
            return 4
    print(f"HELD property={cid} tier={tier} seed={seed} cases={evaluations} "
          f"distinct={len(distinct)} skipped={len(skipped)} wall={time.monotonic()-t0:.1f}s")
    if a.verbose:
        print(json.dumps(coverage["observed"], indent=1))
        print(json.dumps(coverage["largest_error_over_tolerance"], indent=1))
    return 0
