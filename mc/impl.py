"""Access to the implementation under test (always /repo/src's current working tree)."""

import os
import sys
import warnings

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
sys.dont_write_bytecode = True
_REPO = os.environ.get("HALOMOD_REPO", "/repo")
sys.path.insert(0, _REPO + "/src")
warnings.simplefilter("ignore")

import colossus.settings  # noqa: E402

colossus.settings.PERSISTENCE = ""  # no cache files: they would couple concurrent explorations

import numpy as np  # noqa: E402

import halomod  # noqa: E402

assert os.path.realpath(halomod.__file__).startswith(os.path.realpath(_REPO)), halomod.__file__

from halomod import bias, concentration, cross_correlations, halo_exclusion  # noqa: E402,F401
from halomod import halo_model, hod, integrate_corr, profiles, tools, wdm  # noqa: E402,F401
from halomod.halo_model import DMHaloModel, TracerHaloModel  # noqa: E402,F401
from hmf._internals._framework import Component, Framework  # noqa: E402

#: A coarse grid on which every quantity of the framework is cheap (all 145 in ~0.25 s).
GRID = dict(
    transfer_model="EH",
    Mmin=10,
    Mmax=15,
    dlog10m=0.25,
    lnk_min=-7,
    lnk_max=6,
    dlnk=0.25,
    rnum=5,
    rmin=0.1,
    rmax=40,
    dr_table=0.1,
)


def grid(**kw):
    d = dict(GRID)
    d.update(kw)
    return d


PROBE_K = np.array([1e-4, 3e-3, 0.02, 0.11, 0.9, 6.0, 45.0, 800.0])
PROBE_R = np.array([5e-4, 0.02, 0.3, 1.7, 9.0, 33.0, 150.0, 400.0])


def canon(v, depth=0):
    """A comparable, implementation-independent image of a quantity's value."""
    if v is None or isinstance(v, (str, bool)):
        return v
    if isinstance(v, (int, float, np.generic)):
        return float(v)
    if isinstance(v, np.ndarray):
        return np.array(v, dtype=float) if v.dtype != object else [canon(x, depth + 1) for x in v]
    if isinstance(v, type):
        return v.__name__
    if isinstance(v, dict):
        return {str(k): canon(x, depth + 1) for k, x in sorted(v.items(), key=lambda t: str(t[0]))}
    if isinstance(v, (list, tuple)):
        return [canon(x, depth + 1) for x in v]
    if isinstance(v, Component):
        return {"cls": type(v).__name__, "params": canon(v.params, depth + 1)}
    if isinstance(v, Framework):
        return {"framework": type(v).__name__}
    if callable(v):
        return {"fn": [_call(v, PROBE_K), _call(v, PROBE_R)]}
    return type(v).__name__


def _call(f, x):
    try:
        return np.array(f(x), dtype=float)
    except Exception as e:
        return f"!{type(e).__name__}"


def same(a, b, rtol=1e-7, atol=0.0):
    """Equality of canonical values up to floating-point reassociation."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k], rtol, atol) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, (float, np.ndarray)) and isinstance(b, (float, np.ndarray)):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        scale = np.nanmax(np.abs(np.where(np.isfinite(b), b, 0.0)), initial=0.0)
        return bool(np.allclose(a, b, rtol=rtol, atol=max(atol, 1e-9 * scale), equal_nan=True))
    return type(a) is type(b) and a == b


def read(obj, q):
    """Read a quantity; an exception is a value too (it must then be raised consistently)."""
    try:
        return canon(getattr(obj, q))
    except Exception as e:
        return f"!{type(e).__name__}"


def quantities(cls, skip=()):
    """Every derived quantity a class offers (parameters excluded)."""
    return [q for q in cls.quantities_available() if q not in skip]
