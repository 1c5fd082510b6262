"""Build /repo's current working tree into a scratch package directory.

Nothing is written in /repo.  A staged tree is a directory that holds a `falwa`
package: every file below /repo/src/falwa that is not Fortran, plus the extension
modules meson builds from /repo's current Fortran sources.
"""
import os
import pathlib
import shutil
import subprocess
import sys

REPO = pathlib.Path(os.environ.get("VF_REPO", "/repo"))
VENV_BIN = "/opt/venv/bin"

# kind -> (fortran args, link args)
KINDS = {
    "plain": ([], []),
    # gfortran's own checks turn every out-of-bounds subscript into a clean abort
    "bounds": (["-g", "-O1", "-fcheck=bounds,do,mem,pointer", "-fno-omit-frame-pointer"], []),
    # the address and undefined-behaviour sanitizers
    "asan": (["-g", "-O1", "-fsanitize=address,undefined", "-fno-omit-frame-pointer",
              "-fno-sanitize-recover=undefined"],
             ["-fsanitize=address,undefined"]),
    # the same kernels with every automatic local filled with a poison value
    "poison_nan": (["-O2", "-finit-real=snan", "-finit-integer=-77777777"], []),
    "poison_zero": (["-O2", "-finit-real=zero", "-finit-integer=0"], []),
    "poison_big": (["-O2", "-finit-real=inf", "-finit-integer=1999999999"], []),
}


class StageError(RuntimeError):
    pass


def base_env():
    env = dict(os.environ)
    env.update(
        PATH=VENV_BIN + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        HOME=env.get("HOME", "/root"),
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONHASHSEED="0",
        PYTHONWARNINGS="ignore::SyntaxWarning",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MPLBACKEND="Agg",
        CC="/usr/bin/gcc",
        FC="/usr/bin/gfortran",
    )
    return env


def _run(cmd, env, log):
    with open(log, "ab") as fh:
        rc = subprocess.run(cmd, env=env, stdout=fh, stderr=subprocess.STDOUT,
                            stdin=subprocess.DEVNULL, timeout=600).returncode
    if rc:
        tail = pathlib.Path(log).read_text(errors="replace")[-3000:]
        raise StageError(f"{' '.join(map(str, cmd))} -> {rc}\n{tail}")


def copy_python(dst: pathlib.Path):
    src = REPO / "src" / "falwa"
    for f in sorted(src.rglob("*")):
        if not f.is_file() or f.suffix in (".f90", ".so", ".pyc") or f.name == "meson.build":
            continue
        if "__pycache__" in f.parts:
            continue
        out = dst / f.relative_to(src)
        out.parent.mkdir(parents=True, exist_ok=True)
        shutil.copyfile(f, out)


def stage(scratch, kind="plain"):
    """Return the directory to put first on sys.path."""
    scratch = pathlib.Path(scratch)
    fargs, largs = KINDS[kind]
    root = scratch / f"stage-{kind}"
    pkg = root / "falwa"
    pkg.mkdir(parents=True)
    copy_python(pkg)
    bld = scratch / f"build-{kind}"
    log = scratch / f"build-{kind}.log"
    env = base_env()
    cmd = [VENV_BIN + "/meson", "setup", str(bld), str(REPO), "--buildtype=release"]
    if fargs:
        cmd.append("-Dfortran_args=" + _list(fargs))
    if largs:
        cmd.append("-Dfortran_link_args=" + _list(largs))
        cmd.append("-Dc_link_args=" + _list(largs))
    _run(cmd, env, log)
    _run([VENV_BIN + "/ninja", "-C", str(bld)], env, log)
    n = 0
    for so in bld.rglob("*.so"):
        shutil.copyfile(so, pkg / so.name)
        n += 1
    if n == 0:
        raise StageError("no extension module was built")
    shutil.rmtree(bld)
    return root


def _list(args):
    """meson's array syntax, which is safe for values that hold commas."""
    return "[" + ",".join(f"'{a}'" for a in args) + "]"
