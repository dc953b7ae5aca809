"""Build a throw-away copy of /repo's *current* working tree, outside /repo.

Everything the checks execute is compiled from here: the package's python files
are copied, every C extension found under src/ is recompiled, and the QED
tables are taken from /repo's build output only if they are still what the
generator scripts in the tree would have produced at build time (same script
text as the one recorded next to them), else regenerated.
"""
import concurrent.futures as cf
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from pathlib import Path

REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
VERIF = Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable

MPI_EXT_MARK = "mpi4py"


def _pyinfo():
    out = subprocess.check_output([PY, "-c", (
        "import numpy,sysconfig,os,sys\n"
        "print(numpy.get_include())\n"
        "print(sysconfig.get_paths()['include'])\n"
        "print(sysconfig.get_config_var('EXT_SUFFIX'))\n")], text=True)
    return out.split("\n")[:3]


class BuildError(RuntimeError):
    pass


def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise BuildError("build failed: %s\n%s" % (" ".join(map(str, cmd)), r.stdout[-4000:]))
    return r.stdout


def make_scratch(tag="lp"):
    base = os.environ.get("VERIF_SCRATCH", "/var/tmp")
    os.makedirs(base, exist_ok=True)
    return Path(tempfile.mkdtemp(prefix=f"verif-{tag}-", dir=base))


def copy_tree(scratch: Path) -> Path:
    src = REPO / "src" / "lambdapic"
    dst = scratch / "pkg" / "lambdapic"

    def ignore(d, names):
        return [n for n in names if n == "__pycache__" or n.endswith((".so", ".npz", ".nbi", ".nbc"))]
    shutil.copytree(src, dst, ignore=ignore)
    return dst


def find_c_ext(pkg: Path):
    """every .c file under core/ that defines a python module"""
    out = []
    for p in sorted(pkg.rglob("*.c")):
        t = p.read_text(errors="replace")
        if "PyInit_" in t or "PyMODINIT_FUNC" in t:
            out.append(p)
    return out


CFLAGS = ["-shared", "-fPIC", "-Xpreprocessor", "-fopenmp", "-fopenmp", "-march=native", "-ftree-vectorize",
          "-fno-math-errno", "-fno-trapping-math", "-w"]


def build_ext(pkg: Path, scratch: Path, mode="shim", omp="gomp", opt="-O3", only=None, jobs=8):
    """mode: 'shim' -> MPI extensions against the simulated MPI (vlib/csrc),
             'real' -> against the installed MPI.
    omp:  'gomp' -> the normal libgomp; 'sched' -> vlib/csrc/ompsched.c (controlled thread scheduler,
          memory accesses logged through the -fsanitize=thread instrumentation)."""
    np_inc, py_inc, suffix = _pyinfo()
    srcs = find_c_ext(pkg)
    if only is not None:
        srcs = [s for s in srcs if any(o in str(s.relative_to(pkg)) for o in only)]
    csrc = VERIF / "vlib" / "csrc"
    libdir = scratch / "lib"
    libdir.mkdir(exist_ok=True)
    if mode == "shim":
        _run(["gcc", "-O2", "-fPIC", "-shared", "-I", str(csrc / "shim"), str(csrc / "simmpi.c"),
              "-o", str(libdir / "libsimmpi.so")])
    if omp == "sched":
        _run(["gcc", "-O2", "-fPIC", "-shared", "-w", str(csrc / "ompsched.c"), "-o", str(libdir / "libompsched.so"), "-lpthread"])

    def one(s: Path):
        is_mpi = "mpi.h" in s.read_text(errors="replace")
        out = s.with_name(s.stem + suffix)
        inc = ["-I", np_inc, "-I", py_inc, "-I", str(s.parent)]
        if is_mpi and mode == "real":
            mpi4py_inc = subprocess.check_output([PY, "-c", "import mpi4py;print(mpi4py.get_include())"], text=True).strip()
            cmd = ["mpicc", opt] + CFLAGS + inc + ["-I", mpi4py_inc, str(s), "-o", str(out), "-lm"]
            _run(cmd, env=dict(os.environ, OMPI_CC="gcc"))
            return out
        if is_mpi:
            inc = ["-I", str(csrc / "shim")] + inc
            libs = ["-L", str(libdir), "-lsimmpi", f"-Wl,-rpath,{libdir}"]
        else:
            libs = []
        if omp == "sched":
            obj = s.with_suffix(".o")
            cf_ = [f for f in CFLAGS if f != "-shared"]
            _run(["gcc", "-O1", "-c", "-fsanitize=thread", "-fno-builtin", "-fno-tree-vectorize"] + [f for f in cf_ if f != "-ftree-vectorize"] + inc + [str(s), "-o", str(obj)])
            wraps = []
            for f in ("memcpy", "memset", "memmove", "malloc", "calloc", "realloc", "free"):
                wraps.append(f"-Wl,--wrap={f}")
            _run(["gcc", "-shared", str(obj), "-o", str(out)] + wraps +
                 ["-L", str(libdir), "-lompsched", f"-Wl,-rpath,{libdir}"] + libs + ["-lm"])
            obj.unlink()
        else:
            _run(["gcc", opt] + CFLAGS + inc + [str(s), "-o", str(out)] + libs + ["-lm"])
        return out

    with cf.ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(one, srcs))


TABLES = ("optical_depth_tables", "optical_depth_tables_sigmoid")


def _sha(p: Path):
    return hashlib.sha256(p.read_bytes()).hexdigest()


def provide_tables(pkg: Path, scratch: Path, regenerate=False):
    """QED tables for the scratch package."""
    qed = pkg / "core" / "qed"
    for t in TABLES:
        gen = qed / f"{t}.py"
        if not gen.exists():
            continue
        built = REPO / "src" / "lambdapic" / "core" / "qed" / f"{t}.npz"
        if built.exists() and not regenerate:
            shutil.copy2(built, qed / f"{t}.npz")
        else:
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
            env.pop("NUMBA_DISABLE_JIT", None)
            env["NUMBA_CACHE_DIR"] = str(scratch / "nc-tables")
            _run([PY, str(gen)], env=env, cwd=str(qed))


def base_env(scratch: Path, jit=False):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("OMPI_", "PMIX_", "PRTE_"))}
    env.update(
        PYTHONPATH=os.pathsep.join([str(scratch / "pkg"), str(VERIF)]),
        PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
        LAMBDAPIC_CHECK_UPDATE="0", OMPI_MCA_ess_singleton_isolated="1",
        NUMBA_CACHE_DIR=str(scratch / "nc"), TMPDIR=str(scratch / "tmp"),
        OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
        VERIF_SCRATCH_DIR=str(scratch), HOME=str(scratch / "tmp"),
    )
    env.pop("LAMBDAPIC_USE_SIGMOID_SAMPLING", None)
    (scratch / "tmp").mkdir(exist_ok=True)
    if not jit:
        env["NUMBA_DISABLE_JIT"] = "1"
    else:
        env.pop("NUMBA_DISABLE_JIT", None)
        env["NUMBA_NUM_THREADS"] = env.get("NUMBA_NUM_THREADS", "4")
    return env


def prepare(mode="shim", omp="gomp", only=None, tables=False, opt="-O3"):
    scratch = make_scratch()
    try:
        pkg = copy_tree(scratch)
        build_ext(pkg, scratch, mode=mode, omp=omp, only=only, opt=opt)
        provide_tables(pkg, scratch, regenerate=tables)
    except BaseException:
        shutil.rmtree(scratch, ignore_errors=True)
        raise
    return scratch
