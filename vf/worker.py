"""Runs a share of one check's cases in its own process.

argv: check-id stage-dir out-file deadline-seconds ; cases as JSON on stdin.
Every case is announced before it runs, so that the parent can name the case that
was in flight if this process dies.
"""
import importlib
import json
import os
import sys
import time
import traceback
import warnings


def main():
    cid, stage_dir, out, budget = sys.argv[1:5]
    t_end = time.monotonic() + float(budget)
    cases = json.load(sys.stdin)
    # kernels write to Fortran unit 6
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    # the editable install's import hook would win over sys.path
    sys.meta_path[:] = [f for f in sys.meta_path
                        if "mesonpy" not in (type(f).__module__ + type(f).__name__).lower()]
    for name in [m for m in sys.modules if m == "falwa" or m.startswith("falwa.")]:
        del sys.modules[name]
    sys.path.insert(0, stage_dir)
    warnings.simplefilter("ignore")
    import numpy as np
    from vf import cover
    from vf.mon import Monitor, Skip
    mod = importlib.import_module("checks." + cid.lower())
    fh = open(out, "a")
    if not os.environ.get("VF_NO_LINES"):
        cover.start([stage_dir, os.environ["TMPDIR"], os.environ.get("VF_REPO", "/repo")])

    def emit(obj):
        fh.write(json.dumps(obj) + "\n")
        fh.flush()

    imported = False
    for idx, case in cases:
        if time.monotonic() > t_end:
            emit({"ev": "skip", "i": idx})
            continue
        emit({"ev": "start", "i": idx})
        mon = Monitor()
        mon.case = case
        t0 = time.monotonic()
        try:
            if not imported:
                import falwa
                assert os.path.realpath(falwa.__file__).startswith(os.path.realpath(stage_dir)), \
                    falwa.__file__
                imported = True
            mod.run(case, mon)
        except Skip as e:
            mon.count("workload-skipped:" + str(e))
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            inlib = [f for f in tb if f.filename.startswith(stage_dir)]
            if inlib or (not imported and not isinstance(e, AssertionError)):
                where = f"{inlib[-1].name}" if inlib else "import"
                mon.fail(f"exception:{type(e).__name__}", why=str(e)[:400], where=where,
                         tb=traceback.format_exc()[-1500:])
            elif imported and isinstance(e, (TypeError, ValueError, IndexError, KeyError, AttributeError,
                                             ArithmeticError, np.linalg.LinAlgError)):
                # calibrated on the unchanged tree, the oracles read every result they are given
                mon.fail(f"unusable-result:{type(e).__name__}", why=str(e)[:400], where=tb[-1].name,
                         tb=traceback.format_exc()[-1500:])
            else:
                emit({"ev": "harness", "i": idx, "tb": traceback.format_exc()[-3000:]})
                continue
        emit({"ev": "end", "i": idx, "t": round(time.monotonic() - t0, 4), "r": mon.export()})
    emit({"ev": "done", "lines": cover.export()})
    fh.close()


if __name__ == "__main__":
    main()
