"""A scripted solver (error estimates are generated data) and a recording controller."""
from typing import Any, Callable, ClassVar

from .util import *  # noqa: F401,F403


def g_fn(t, args, xp=jnp):
    """The 'solution' the scripted solver returns: a known function of time."""
    return args["c"] * xp.cos(args["w"] * t) + args["b"]


def mag_fn(t0, t1, args):
    """Generated error magnitude: table over cells of time, times dt**p."""
    table = args["table"]
    n = table.shape[0]
    u = (0.5 * (t0 + t1) - args["lo"]) / (args["hi"] - args["lo"])
    k = jnp.clip(jnp.floor(u * n).astype(jnp.int32), 0, n - 1)
    m = table[k] * jnp.abs((t1 - t0) / args["ref"]) ** args["p"]
    sp = args["special"][k]  # 0 none, 1 inf, 2 nan, 3 zero
    big = jnp.abs(t1 - t0) > args["thr"]
    m = jnp.where((sp == 1) & big, jnp.inf, m)
    m = jnp.where((sp == 2) & big, jnp.nan, m)
    m = jnp.where(sp == 3, 0.0, m)
    return m, jnp.where((sp == 2) & big, jnp.nan, 0.0)


class Scripted(dfx.AbstractAdaptiveSolver):
    """y(t) = g(t); error estimate is data; records its accepted steps."""

    p: int = eqx.field(static=True)
    n: int = eqx.field(static=True)
    tree: bool = eqx.field(static=True, default=False)
    term_structure: ClassVar = dfx.AbstractTerm
    interpolation_cls: ClassVar[Callable[..., Any]] = dfx.LocalLinearInterpolation

    def order(self, terms):
        return self.p

    def init(self, terms, t0, t1, y0, args):
        return jnp.array(0), jnp.full((self.n, 3), jnp.nan)

    def step(self, terms, t0, t1, y0, args, solver_state, made_jump):
        i, buf = solver_state
        buf = buf.at[i].set(jnp.stack([t0, t1, jnp.asarray(made_jump, jnp.float64)]))
        m, bad = mag_fn(t0, t1, args)
        y1 = g_fn(t1, args) + bad
        err = m * args["v"]
        if self.tree:
            y1, err = to_tree(y1), to_tree(err)
        return (y1, err, dict(y0=y0, y1=y1), (i + 1, buf), dfx.RESULTS.successful)

    def func(self, terms, t0, y0, args):
        return terms.vf(t0, y0, args)


def zero_vf(t, y, args):
    return jtu.tree_map(jnp.zeros_like, y)


class RecordAdaptive(dfx.AbstractAdaptiveStepSizeController):
    """Delegates to the controller under test, recording every attempted step."""

    inner: dfx.AbstractAdaptiveStepSizeController
    n: int = eqx.field(static=True)

    @property
    def rtol(self):
        return self.inner.rtol

    @property
    def atol(self):
        return self.inner.atol

    @property
    def norm(self):
        return self.inner.norm

    def wrap(self, direction):
        return type(self)(self.inner.wrap(direction), self.n)

    def init(self, *a, **k):
        t1, state = self.inner.init(*a, **k)
        return t1, (state, jnp.array(0), jnp.full((self.n, 7), jnp.nan))

    def adapt_step_size(self, t0, t1, y0, y1_candidate, args, y_error, error_order, controller_state):
        state, i, buf = controller_state
        keep, n0, n1, mj, state, res = self.inner.adapt_step_size(
            t0, t1, y0, y1_candidate, args, y_error, error_order, state)
        ferr = 0.0 if y_error is None else sum(
            jnp.sum(jnp.abs(x)) for x in jtu.tree_leaves(y_error))
        f = lambda x: jnp.asarray(x).astype(jnp.float64)  # noqa: E731
        row = jnp.stack([f(t0), f(t1), f(keep), f(n0), f(n1), f(mj), f(ferr)])
        buf = buf.at[i].set(row)
        return keep, n0, n1, mj, (state, i + 1, buf), res


class RecordFixed(dfx.AbstractStepSizeController):
    inner: dfx.AbstractStepSizeController
    n: int = eqx.field(static=True)

    def wrap(self, direction):
        return type(self)(self.inner.wrap(direction), self.n)

    init = RecordAdaptive.init
    adapt_step_size = RecordAdaptive.adapt_step_size


def record(controller, n):
    if isinstance(controller, dfx.AbstractAdaptiveStepSizeController):
        return RecordAdaptive(controller, n)
    return RecordFixed(controller, n)


def attempts(sol):
    """Rows (t0, t1, keep, next_t0, next_t1, made_jump, |err|_1), internal time."""
    _, i, buf = sol.controller_state
    return np.asarray(buf)[: int(i)]


# ------------------------------------------------------------------ PID model
class PidModel:
    """Independent model of the documented controller, over observed attempts."""

    def __init__(self, order, rtol, atol, norm, pc, ic, dc, fmin, fmax, safety, dtmin, dtmax,
                 force):
        self.__dict__.update(locals())
        self.e1 = self.e2 = 1.0  # last two inverse scaled errors of accepted steps
        self.at_min = False

    def init_dt(self, dt0):
        if self.dtmax is not None:
            dt0 = min(dt0, self.dtmax)
        if self.dtmin is not None:
            dt0 = max(dt0, self.dtmin)
        return dt0

    def step(self, dt, y0, y1, err):
        """-> (keep or None if too close to call, next dt, failed)"""
        y1 = np.where(np.isnan(y1).any(), y0, y1)
        err = np.where(np.isnan(err), np.inf, err)
        with np.errstate(all="ignore"):
            scaled = self.norm(err / (self.atol + self.rtol * np.maximum(abs(y0), abs(y1))))
        near = abs(scaled - 1) < 1e-9
        keep = bool(scaled < 1)
        if self.dtmin is not None and self.at_min:
            keep, near = True, False
        with np.errstate(all="ignore"):
            inv = np.float64(1.0) / scaled
            k = self.order
            f = (self.safety * inv ** ((self.ic + self.pc + self.dc) / k)
                 * self.e1 ** (-(self.pc + 2 * self.dc) / k) * self.e2 ** (self.dc / k))
        lo, hi = (1.0, self.fmax) if keep else (self.fmin, self.safety)
        factor = min(max(f, lo), hi)
        new = dt * factor
        failed = False
        if self.dtmax is not None:
            new = min(new, self.dtmax)
        if self.dtmin is not None:
            if not self.force and new < self.dtmin:
                failed = True
                near = near or abs(new - self.dtmin) < 1e-9 * self.dtmin
            if self.at_min and factor == 1:
                new = self.dtmin
            self.ambig = abs(new - self.dtmin) < 1e-9 * self.dtmin and new != self.dtmin
            self.at_min = new <= self.dtmin
            new = max(new, self.dtmin)
        if keep:
            self.e2 = self.e1
            self.e1 = 1.0 if (inv == 0 or np.isinf(inv)) else inv
        return (None if near else keep), new, failed
