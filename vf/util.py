"""Shared problems, solver registry, comparison helpers (public API only)."""
import functools as ft
import math

import jax

jax.config.update("jax_enable_x64", True)
import diffrax as dfx  # noqa: E402
import equinox as eqx  # noqa: E402
import jax.numpy as jnp  # noqa: E402
import jax.random as jr  # noqa: E402
import jax.tree_util as jtu  # noqa: E402
import numpy as np  # noqa: E402
import optimistix as optx  # noqa: E402
from hypothesis import strategies as st  # noqa: E402

from .core import HarnessError, Violation, fail, require, sut  # noqa: E402,F401

F = lambda x: jnp.asarray(x, dtype=jnp.float64)  # noqa: E731


def rng(seed):
    return np.random.RandomState(int(seed) % (2**32))


# ---------------------------------------------------------------- comparisons
def npt(tree):
    return jtu.tree_map(np.asarray, tree)


def close(a, b, what, rtol=1e-8, atol=1e-9):
    """Compare PyTrees of arrays; non-finite entries must agree in position."""
    la, ta = jtu.tree_flatten(a)
    lb, tb = jtu.tree_flatten(b)
    if len(la) != len(lb):
        fail(f"{what}: different number of leaves {len(la)} vs {len(lb)}")
    for x, y in zip(la, lb):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape:
            fail(f"{what}: shape {x.shape} vs {y.shape}")
        if x.dtype == bool or y.dtype == bool:
            if not np.array_equal(x, y):
                fail(f"{what}: {x} vs {y}")
            continue
        fx, fy = np.isfinite(x), np.isfinite(y)
        if not np.array_equal(fx, fy):
            fail(f"{what}: finiteness differs: {x} vs {y}")
        x, y = np.where(fx, x, 0), np.where(fy, y, 0)
        err = np.abs(x - y)
        tol = atol + rtol * np.maximum(np.abs(x), np.abs(y))
        if x.size and np.any(err > tol):
            i = int(np.argmax(err - tol))
            fail(
                f"{what}: max |diff| {err.max():.3e} > tol "
                f"(got {x.ravel()[i]!r}, expected {y.ravel()[i]!r})"
            )


def same_structure(a, b, what):
    if jtu.tree_structure(a) != jtu.tree_structure(b):
        fail(f"{what}: structure {jtu.tree_structure(a)} vs {jtu.tree_structure(b)}")


# ---------------------------------------------------------------- problems
# All numeric data arrives via `args` (arrays), so that a given static configuration is
# compiled once and then exercised on many inputs.
def f_nl(t, y, args):
    """Smooth, bounded, non-autonomous, coupled."""
    A, b, c, w, s = args
    return s * (jnp.tanh(A @ y + b) + c * jnp.sin(w * s * t))


def f_lin(t, y, args):
    A, b, c, w, s = args
    return s * (A @ y + b + c * jnp.sin(w * s * t))


VFS = {"nl": f_nl, "lin": f_lin}


def mk_args(seed, d, sign=1.0, scale=1.0):
    r = rng(seed)
    A = scale * r.uniform(-1.5, 1.5, (d, d))
    return (F(A), F(r.uniform(-1, 1, d)), F(r.uniform(-1, 1, d)),
            F(r.uniform(0.5, 3.0)), F(sign))


def mk_y0(seed, d):
    return F(rng(seed + 77).uniform(-1.5, 1.5, d))


# PyTree-valued version: y = {"a": scalar, "b": (vec[d-1],)}
def to_tree(y):
    return {"a": y[..., 0], "b": (y[..., 1:],)}


def from_tree(z):
    return jnp.concatenate([jnp.asarray(z["a"])[..., None], z["b"][0]], axis=-1)


def f_tree(t, z, args):
    return to_tree(f_nl(t, from_tree(z), args))


# ---------------------------------------------------------------- solvers
NEWTON = lambda tol=1e-10: optx.Newton(rtol=tol, atol=tol)  # noqa: E731


def _imp(cls):
    return lambda: cls(root_finder=optx.Newton(rtol=1e-11, atol=1e-11),
                       root_find_max_steps=50)


ERK = {
    "Euler": dfx.Euler, "Heun": dfx.Heun, "Midpoint": dfx.Midpoint,
    "Ralston": dfx.Ralston, "Bosh3": dfx.Bosh3, "Tsit5": dfx.Tsit5,
    "Dopri5": dfx.Dopri5, "Dopri8": dfx.Dopri8,
}
OTHER_EXPL = {"ReversibleHeun": dfx.ReversibleHeun,
              "LeapfrogMidpoint": dfx.LeapfrogMidpoint}
IMPL = {
    "ImplicitEuler": _imp(dfx.ImplicitEuler), "Kvaerno3": _imp(dfx.Kvaerno3),
    "Kvaerno4": _imp(dfx.Kvaerno4), "Kvaerno5": _imp(dfx.Kvaerno5),
}
IMEX = {
    "KenCarp3": _imp(dfx.KenCarp3), "KenCarp4": _imp(dfx.KenCarp4),
    "KenCarp5": _imp(dfx.KenCarp5), "Sil3": _imp(dfx.Sil3),
}
ALL = {**ERK, **OTHER_EXPL, **IMPL, **IMEX}
NOERR = {"Euler", "LeapfrogMidpoint"}  # no error estimate -> fixed steps only
LININTERP = {"Euler", "ReversibleHeun", "LeapfrogMidpoint", "ImplicitEuler"}


@ft.lru_cache(None)
def solver(name):
    if name.startswith("Half:"):
        return dfx.HalfSolver(solver(name[5:]))
    return ALL[name]()


def f_half(t, y, args):
    return 0.5 * f_nl(t, y, args)


_ODE_NL = dfx.ODETerm(f_nl)
_ODE_LIN = dfx.ODETerm(f_lin)
_ODE_TREE = dfx.ODETerm(f_tree)
_SPLIT = dfx.MultiTerm(dfx.ODETerm(f_half), dfx.ODETerm(f_half))


def f_tree_half(t, z, args):
    return jtu.tree_map(lambda x: 0.5 * x, f_tree(t, z, args))


_SPLIT_TREE = dfx.MultiTerm(dfx.ODETerm(f_tree_half), dfx.ODETerm(f_tree_half))


def terms_for(name, tree=False):
    if name.startswith("Half:"):
        name = name[5:]
    if name in IMEX:
        return _SPLIT_TREE if tree else _SPLIT
    return _ODE_TREE if tree else _ODE_NL


# ---------------------------------------------------------------- controllers
def pid(rtol=1e-4, atol=1e-5, **kw):
    return dfx.PIDController(rtol=F(rtol), atol=F(atol), **kw)


# ---------------------------------------------------------------- strategies
seeds = st.integers(0, 10**6)
unit = st.floats(0, 1, allow_nan=False, width=32).map(lambda x: round(x, 4))


def frac(lo, hi):
    return st.floats(lo, hi, allow_nan=False).map(lambda x: round(x, 5))


def weighted(d):
    """sampled_from with integer weights {value: weight}."""
    return st.sampled_from([k for k, w in d.items() for _ in range(w)])


SOLVER_W = {
    "Euler": 3, "Heun": 2, "Midpoint": 1, "Ralston": 1, "Bosh3": 2, "Tsit5": 4,
    "Dopri5": 3, "Dopri8": 2, "ReversibleHeun": 2, "LeapfrogMidpoint": 1,
    "ImplicitEuler": 1, "Kvaerno3": 1, "Kvaerno4": 1, "Kvaerno5": 1, "KenCarp3": 1,
    "KenCarp4": 1, "KenCarp5": 1, "Sil3": 1,
}


def finite_count(ts):
    return int(np.sum(np.isfinite(np.asarray(ts))))
