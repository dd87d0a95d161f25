"""Process set-up shared by every simulation process.

`child_env` fixes everything about the process that could make a run irreproducible
(hash seed, BLAS threads, bytecode writing); `load` imports the library from the repository
under test and checks that this is what was imported.
"""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VSIM_REPO", "/repo"))
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


def child_env(hashseed="0"):
    env = {
        k: v
        for k, v in os.environ.items()
        if k in ("PATH", "HOME", "LANG", "TMPDIR", "VERIF_SEED", "VERIF_TIER")
        or k.startswith("VSIM_")
    }
    env.update(
        PYTHONHASHSEED=str(hashseed),
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONNOUSERSITE="1",
        OPENBLAS_NUM_THREADS="1",
        OMP_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        JAX_ENABLE_X64="1",
        JAX_PLATFORMS="cpu",
        MPLBACKEND="Agg",
        LANG="C.UTF-8",
        XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1 --xla_backend_optimization_level=0",
    )
    env.setdefault("HOME", "/root")
    return env


class HarnessError(Exception):
    """Something is wrong with the harness or its environment, not with the library."""


_lib = None


class Lib:
    """The library under test, as the simulator sees it."""


def load(jax=False, locks=True):
    """Import LAB and the library under test. Idempotent."""
    global _lib
    if _lib is None:
        sys.dont_write_bytecode = True
        if REPO in sys.path:
            sys.path.remove(REPO)
        sys.path.insert(0, REPO)
        if locks:
            import simlock

            simlock.install(os.path.join(REPO, "matrix") + os.sep)
        import warnings

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import numpy as np
            import lab as B
            import matrix
        if not os.path.realpath(matrix.__file__).startswith(REPO + os.sep):
            raise HarnessError(f"matrix was imported from {matrix.__file__}, not {REPO}")
        lib = Lib()
        lib.np, lib.B, lib.M = np, B, matrix
        lib.jax = None
        _cheap_stack()
        _lib = lib
    if jax and _lib.jax is None:
        import warnings

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import jax as _jax
            import jax.numpy as jnp
            import lab.jax  # noqa: F401
        _lib.jax, _lib.jnp = _jax, jnp
        cache = os.environ.get("VSIM_JAXCACHE")
        if cache:
            # Workers of one check share compiled kernels.
            _jax.config.update("jax_compilation_cache_dir", cache)
            _jax.config.update("jax_persistent_cache_min_compile_time_secs", 0)
            _jax.config.update("jax_persistent_cache_min_entry_size_bytes", -1)
    return _lib


def _cheap_stack():
    """Every warning of the library walks `inspect.stack()`, which reads source files and
    scans all loaded modules. Only the frames are used; give it just those."""
    import types

    import wbml.warning as w

    class FI:
        __slots__ = ("frame",)

        def __init__(self, frame):
            self.frame = frame

    def stack(context=1):
        f = sys._getframe(1)
        out = []
        while f is not None:
            out.append(FI(f))
            f = f.f_back
        return out

    w.inspect = types.SimpleNamespace(stack=stack)
