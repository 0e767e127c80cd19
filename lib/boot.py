"""Process set-up: the real GroCo/Keras/JAX from /opt/venv, z3 from the tooling venv."""
import os
import sys

REPO = os.environ.get("GROCO_REPO", "/repo")
os.environ["KERAS_BACKEND"] = "jax"
os.environ["JAX_PLATFORMS"] = "cpu"
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ["XLA_FLAGS"] = (
    os.environ.get("XLA_FLAGS", "")
    + " --xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
)
os.environ["OMP_NUM_THREADS"] = "1"
sys.dont_write_bytecode = True
# bytecode of /repo is never read back: a stale .pyc must not hide a change
sys.pycache_prefix = "/nonexistent-pycache"
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.path.insert(0, REPO)
_z3dir = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def import_z3():
    # only z3 is taken from the tooling venv; numpy & co come from /opt/venv
    if "z3" in sys.modules:
        return sys.modules["z3"]
    sys.path.append(_z3dir)
    try:
        import z3
    finally:
        sys.path.remove(_z3dir)
    return z3


z3 = import_z3()
import warnings  # noqa: E402

warnings.filterwarnings("ignore")


def jnp_dtype(name):
    import jax.numpy as jnp

    return jnp.dtype(name)
