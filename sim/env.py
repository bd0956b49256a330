"""Environment of every simulator process: where the code under test is, and
the settings (threads, platform, caches) that must be the same in every process
for a seed to be one repeatable execution."""
import os
import sys

REPO = os.environ.get("SIM_REPO", "/repo")
SRC = os.path.join(REPO, "src")
PKG = os.path.join(SRC, "jaxoplanet")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def child_env(scratch, hashseed="0", extra=None):
    e = {
        "HOME": scratch,
        "LANG": "C.UTF-8",
        "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": str(hashseed),
        "JAX_PLATFORMS": "cpu",
        "MPLBACKEND": "Agg",
        "MPLCONFIGDIR": os.path.join(scratch, "mpl"),
        "SIM_SCRATCH": scratch,
        "SIM_REPO": REPO,
        "PYTHONPATH": VERIF,
        "XLA_FLAGS": "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1 --xla_backend_optimization_level=0",
        "OMP_NUM_THREADS": "1",
        "OPENBLAS_NUM_THREADS": "1",
        "TZ": "UTC",
        "TMPDIR": scratch,
    }
    if "VERIF_SEED" in os.environ:
        e["VERIF_SEED"] = os.environ["VERIF_SEED"]
    if extra:
        e.update(extra)
    return e
