"""Process set-up shared by every entry point: deterministic, offline, CPU, x64, and the
code under test is always /repo's working tree."""
import os
import sys

REPO = os.environ.get("JV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("JAX_ENABLE_X64", "1")
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
sys.dont_write_bytecode = True

_src = os.path.join(REPO, "src")
if _src not in sys.path:
    sys.path.insert(0, _src)
_vt = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _vt not in sys.path:
    sys.path.append(_vt)
sys.setrecursionlimit(200000)

import warnings  # noqa: E402

warnings.filterwarnings("ignore")


def setup():
    import jax

    jax.config.update("jax_enable_x64", True)
    import jaxoplanet

    got = os.path.realpath(os.path.dirname(jaxoplanet.__file__))
    want = os.path.realpath(os.path.join(_src, "jaxoplanet"))
    if got != want:
        raise RuntimeError(f"jaxoplanet imported from {got}, not from {want}")
