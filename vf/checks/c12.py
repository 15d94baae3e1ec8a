"""C12: terms are (vector field, control) pairs combined by a linear product."""
import operator
import warnings

import lineax as lx

from ..core import Part
from ..util import *  # noqa: F401,F403

warnings.filterwarnings("ignore")
# leaf shapes: (y shape, control shape)
LEAVES = [((), ()), ((2,), ()), ((), (3,)), ((2,), (3,)), ((2, 3), (2,)), ((3,), (2, 2)), ((0,), (2,)), ((1,), (1,))]


def mk(r, shape, dt):
    x = r.uniform(-1.5, 1.5, shape)
    if dt == "c":
        x = x + 1j * r.uniform(-1.5, 1.5, shape)
    return jnp.asarray(x.astype({"f": np.float64, "c": np.complex128, "s": np.float32}[dt]))


def pack(kind, leaves):
    if kind == "bare":
        return leaves[0]
    if kind == "tuple":
        return tuple(leaves)
    return {"p": leaves[0], "q": [leaves[1 % len(leaves)]]} if kind == "nest" else leaves[0]


def n_of(kind):
    return {"bare": 1, "tuple": 2, "nest": 2}[kind]


KINDS = ["ode", "ode-broadcast", "control", "control-callable", "control-path", "control-bm", "lx-dense", "lx-diag", "lx-tree", "weak",
         "multi", "multi-nested", "langevin"]


@st.composite
def strat(draw):
    tk = draw(st.sampled_from(["bare", "tuple", "nest"]))
    return dict(kind=draw(st.sampled_from(KINDS)), tree=tk, leaves=draw(st.lists(st.integers(0, len(LEAVES) - 1), min_size=2, max_size=2)),
                dt=draw(st.sampled_from(["f", "f", "c"])), cdt=draw(st.sampled_from(["f", "f", "same"])), seed=draw(seeds), t=draw(frac(-2, 2)),
                ts=sorted(draw(st.lists(frac(-2, 2), min_size=3, max_size=3, unique=True))),
                a=draw(frac(-2, 2)), b=draw(frac(-2, 2)))


class SinPath(dfx.AbstractPath):
    """X(t) = sum_k c_k sin(w_k t), a PyTree; documented subclass interface."""

    amp: object
    w: float

    @property
    def t0(self):
        return -jnp.inf

    @property
    def t1(self):
        return jnp.inf

    def evaluate(self, t0, t1=None, left=True):
        v = lambda t: jtu.tree_map(lambda c: c * jnp.sin(self.w * t), self.amp)  # noqa: E731
        return v(t0) if t1 is None else jtu.tree_map(operator.sub, v(t1), v(t0))

    def derivative(self, t, left=True):
        return jtu.tree_map(lambda c: self.w * c * jnp.cos(self.w * t), self.amp)


def dot(v, c):
    """NumPy reference of the (vector field) . (control) contraction."""
    v, c = np.asarray(v), np.asarray(c)
    return np.tensordot(v, c, axes=c.ndim) if c.ndim else v * c


def build(case, r, kind=None, depth=0):
    """-> term, y, reference vf at (t,y) as NumPy, reference (vf, control) -> y, path-like?"""
    kind = kind or case["kind"]
    dt = case["dt"]
    n = n_of(case["tree"])
    LS = [LEAVES[i] for i in case["leaves"][:n]]
    y = case["y"]
    amp = lambda t: np.cos(t) + 1.3  # noqa: E731
    ysum = lambda y: sum(jnp.sum(x) for x in jtu.tree_leaves(y))  # noqa: E731
    ysn = complex(sum(np.sum(np.asarray(x)) for x in jtu.tree_leaves(y)))
    ysn = ysn if dt == "c" else ysn.real
    cdt = dt if case["cdt"] == "same" else "f"
    if kind in ("ode", "ode-broadcast"):
        T = pack(case["tree"], [mk(r, () if kind == "ode-broadcast" else ys, dt if kind == "ode" else "f") for ys, _ in LS])
        f = lambda t, y, args: jtu.tree_map(lambda a: a * (jnp.cos(t) + 1.3) * args * (1.0 if kind == "ode-broadcast" else 1 + ysum(y)), T)  # noqa: E731
        term = dfx.ODETerm(f)
        refvf = lambda t, args: jtu.tree_map(lambda a, yi: np.broadcast_to(np.asarray(a) * amp(t) * args * (1.0 if kind == "ode-broadcast" else 1 + ysn), yi.shape), T, y)  # noqa: E731
        return term, refvf, lambda v, c: jtu.tree_map(lambda x: x * c, v), True, lambda a, b: b - a
    if kind.startswith("control"):
        C = [mk(r, cs, cdt) for _, cs in LS]
        if kind == "control-bm":
            shape = pack(case["tree"], [jax.ShapeDtypeStruct(cs, jnp.float64) for _, cs in LS])
            ctrl = dfx.VirtualBrownianTree(-3.0, 3.0, 0.05, shape, jr.PRNGKey(case["seed"]))
            refc = None
        else:
            X = SinPath(pack(case["tree"], C), 1.7)
            refc = lambda a, b: jtu.tree_map(lambda c: np.asarray(c) * (np.sin(1.7 * b) - np.sin(1.7 * a)), X.amp)  # noqa: E731
            ctrl = X if kind == "control-path" else (lambda a, b, **kw: X.evaluate(a, b))
        T = pack(case["tree"], [mk(r, ys + cs, dt) for ys, cs in LS])
        f = lambda t, y, args: jtu.tree_map(lambda a: a * (jnp.cos(t) + 1.3) * args * (1 + ysum(y)), T)  # noqa: E731
        refvf = lambda t, args: jtu.tree_map(lambda a: np.asarray(a) * amp(t) * args * (1 + ysn), T)  # noqa: E731
        return dfx.ControlTerm(f, ctrl), refvf, lambda v, c: jtu.tree_map(dot, v, c), True, refc
    return None


def check(case):
    r = rng(case["seed"])
    n = n_of(case["tree"])
    LS = [LEAVES[i] for i in case["leaves"][:n]]
    kind = case["kind"]
    dt = case["dt"]
    ta, tb, tc = (F(x) for x in case["ts"])
    t, args = F(case["t"]), F(1.5)
    npd = lambda z: jtu.tree_map(np.asarray, z)  # noqa: E731
    tol = dict(rtol=1e-11, atol=1e-12)
    if kind == "langevin":
        return langevin(case, r)
    if kind.startswith("lx") or kind == "weak":
        return operators(case, r)
    y = pack(case["tree"], [mk(r, ys, dt) for ys, _ in LS])
    case = dict(case, y=y)
    if kind.startswith("multi"):
        parts = [build(case, r, k) for k in ("ode", "control-path", "control")]
        if kind == "multi":
            term = dfx.MultiTerm(*[p[0] for p in parts])
            flat = lambda v: v  # noqa: E731
        else:
            term = dfx.MultiTerm(parts[0][0], dfx.MultiTerm(parts[1][0], parts[2][0]))
            flat = lambda v: (v[0], *v[1])  # noqa: E731
        with sut("terms"):
            v, c = term.vf(t, y, args), term.contr(ta, tb)
            p1, p2 = term.vf_prod(t, y, args, c), term.prod(v, c)
        require(isinstance(v, tuple) and isinstance(c, tuple), "MultiTerm.vf/contr are not tuples")
        want = None
        for p, vi, ci in zip(parts, flat(v), flat(c)):
            close(vi, p[1](case["t"], 1.5), "vf of a part", **tol)
            cr = p[4](float(ta), float(tb))
            close(ci, cr, "control of a part", **tol)
            w = p[2](p[1](case["t"], 1.5), cr)
            want = w if want is None else jtu.tree_map(operator.add, want, w)
        close(p1, want, "MultiTerm.vf_prod vs sum of the parts", **tol)
        close(p2, want, "MultiTerm.prod vs sum of the parts", **tol)
        same_structure(p1, y, "output")
        return dict(nontrivial=True, labels=[kind, case["tree"], dt])
    term, refvf, refprod, path, refc = build(case, r)
    with sut("terms"):
        v = term.vf(t, y, args)
        c = term.contr(ta, tb)
        c2, c3 = term.contr(tb, tc), term.contr(ta, tc)
        p1, p2 = term.vf_prod(t, y, args, c), term.prod(v, c)
    rv = refvf(case["t"], 1.5)
    close(v, rv, "vf", **tol)
    if refc is not None:
        close(c, refc(float(ta), float(tb)), "control", **tol)
    close(jtu.tree_map(operator.add, npd(c), npd(c2)), npd(c3), "control over adjacent intervals", 1e-7 if kind == "control-bm" else 1e-11, 1e-7 if kind == "control-bm" else 1e-12)
    want = refprod(rv, npd(c) if kind.startswith("control") else float(c))
    same_structure(p1, y, "output of vf_prod")
    close(p1, want, f"{kind}: vf_prod", **tol)
    close(p2, want, f"{kind}: prod(vf, control)", **tol)
    for x, yi in zip(jtu.tree_leaves(p1), jtu.tree_leaves(y)):
        require(x.shape == yi.shape, "shape of vf_prod")
        if kind.startswith("ode"):
            require(x.dtype == yi.dtype, f"dtype of vf_prod: {x.dtype}, state {yi.dtype}")
    comb = jtu.tree_map(lambda x, z: case["a"] * x + case["b"] * z, c, c2)
    with sut("prod"):
        lhs = term.prod(v, comb)
        q2 = term.prod(v, c2)
    close(lhs, jtu.tree_map(lambda x, z: case["a"] * np.asarray(x) + case["b"] * np.asarray(z), p2, q2), f"{kind}: linearity in the control", 1e-10, 1e-11)
    if kind == "control-path":
        with sut("to_ode"):
            o = term.to_ode()
            ov = o.vf(t, y if dt == "c" or case["cdt"] != "same" else y, args)
        require(isinstance(o, dfx.ODETerm), "to_ode is not an ODETerm")
        d = npd(term.control.derivative(t))
        close(ov, refprod(rv, d), "to_ode: vf times dx/dt", **tol)
    nt = any(np.prod(cs, dtype=int) > 1 for _, cs in LS) or n > 1
    return dict(nontrivial=nt, labels=[kind, case["tree"], dt])


def operators(case, r):
    kind, dt = case["kind"], case["dt"]
    t, args = F(case["t"]), F(1.5)
    ta, tb = F(case["ts"][0]), F(case["ts"][1])
    m, n = 3, 3 if kind in ("lx-diag", "weak") else 2
    Cn = mk(r, (n,), dt)
    ctrl = lambda a, b, **kw: Cn * (b - a)  # noqa: E731
    A = mk(r, (m, n), dt)
    d = mk(r, (m,), dt)
    y = mk(r, (m,), dt)
    s = lambda t, y, args: (jnp.cos(t) + 1.3) * args * (1 + jnp.sum(y))  # noqa: E731
    sc = (np.cos(case["t"]) + 1.3) * 1.5 * (1 + np.asarray(y).sum())
    dense = np.asarray(A)
    if kind == "lx-dense":
        term = dfx.ControlTerm(lambda t, y, a: lx.MatrixLinearOperator(A * s(t, y, a)), ctrl)
    elif kind == "lx-tree":
        term = dfx.ControlTerm(lambda t, y, a: lx.MatrixLinearOperator(A * s(t, y, a)) + lx.MatrixLinearOperator(A) * 0.5, ctrl)
        dense = dense * (1 + 0.5 / sc)
    elif kind == "lx-diag":
        term = dfx.ControlTerm(lambda t, y, a: lx.DiagonalLinearOperator(d * s(t, y, a)), ctrl)
        dense = np.diag(np.asarray(d))
    else:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            term = dfx.WeaklyDiagonalControlTerm(lambda t, y, a: d * s(t, y, a), ctrl)
        dense = np.diag(np.asarray(d))
    with sut("terms"):
        c = term.contr(ta, tb)
        v = term.vf(t, y, args)
        p1, p2 = term.vf_prod(t, y, args, c), term.prod(v, c)
        full = dfx.ControlTerm(lambda t, y, a: jnp.asarray(dense) * s(t, y, a), ctrl).vf_prod(t, y, args, c)
    want = dense * sc @ np.asarray(Cn) * (case["ts"][1] - case["ts"][0])
    for p, nm in ((p1, "vf_prod"), (p2, "prod"), (full, "dense array ControlTerm")):
        close(p, want, f"{kind}: {nm}", 1e-11, 1e-12)
    return dict(nontrivial=True, labels=[kind, dt])


def langevin(case, r):
    x = pack(case["tree"], [mk(r, LEAVES[i][0], "f") for i in case["leaves"][: n_of(case["tree"])]])
    v = jtu.tree_map(lambda z: mk(r, z.shape, "f"), x)
    form = case["seed"] % 3  # scalar, full tree
    co = lambda: F(r.uniform(0.2, 3)) if form == 0 else jtu.tree_map(lambda z: jnp.abs(mk(r, z.shape, "f")) + 0.1, x)  # noqa: E731
    gamma, u = co(), co()
    if form == 2:  # scalars per leaf
        gamma, u = jtu.tree_map(lambda z: F(r.uniform(0.2, 3)), x), F(0.7)
    bm = dfx.VirtualBrownianTree(-3.0, 3.0, 0.05, jtu.tree_map(lambda z: jax.ShapeDtypeStruct(z.shape, z.dtype), x), jr.PRNGKey(case["seed"]))
    gf = lambda z, args: jtu.tree_map(lambda q: args * q**3, z)  # noqa: E731
    D, S = dfx.UnderdampedLangevinDriftTerm(gamma, u, gf), dfx.UnderdampedLangevinDiffusionTerm(gamma, u, bm)
    ta, tb = F(case["ts"][0]), F(case["ts"][1])
    t, args = F(case["t"]), F(1.5)
    term = dfx.MultiTerm(D, S)
    with sut("terms"):
        c = term.contr(ta, tb)
        p1 = term.vf_prod(t, (x, v), args, c)
        p2 = term.prod(term.vf(t, (x, v), args), c)
    full = lambda q: jtu.tree_map(lambda z: np.broadcast_to(np.asarray(q), z.shape), x) if not jtu.tree_structure(q) == jtu.tree_structure(x) else jtu.tree_map(lambda q_, z: np.broadcast_to(np.asarray(q_), z.shape), q, x)  # noqa: E731
    h = case["ts"][1] - case["ts"][0]
    dW = bm.evaluate(ta, tb)
    wx = jtu.tree_map(lambda q: np.asarray(q) * h, v)
    wv = jtu.tree_map(lambda g, uu, x_, v_, w: (-g * np.asarray(v_) - uu * 1.5 * np.asarray(x_) ** 3) * h + np.sqrt(2 * g * uu) * np.asarray(w),
                      full(gamma), full(u), x, v, dW)
    for p in (p1, p2):
        same_structure(p, (x, v), "Langevin terms")
        close(p, (wx, wv), "underdamped Langevin terms", 1e-11, 1e-12)
    return dict(nontrivial=True, labels=["langevin", case["tree"]])


# ------------------------------------------------------------------ solving
SOLV = ["Euler", "Heun", "Tsit5", "Bosh3", "Kvaerno3", "ReversibleHeun"]


@st.composite
def strat_solve(draw):
    return dict(solver=draw(st.sampled_from(SOLV)), rel=draw(st.sampled_from(["dt", "dt-adaptive", "reparam", "to_ode", "split", "lx", "dense"])),
                cplx=draw(st.sampled_from([False, False, True])),
                inst=[dict(seed=draw(seeds), t0=draw(frac(-1, 1)), L=draw(frac(0.3, 1.5)), back=draw(st.booleans())) for _ in range(3)])


def g(t, y, a):
    M, b = a
    return M @ jnp.tanh(y) + b


def g_dt(t, y, a):
    return (g(t, y, a) * (1 + jnp.sin(t)))


def run(term, s, t0, t1, y0, a, ts, ctrl=None, dt0=None):
    sc = dfx.StepTo(ts=F(ts)) if ctrl is None else ctrl
    return dfx.diffeqsolve(term, s, F(t0), F(t1), dt0, y0, a, stepsize_controller=sc, max_steps=256,
                           saveat=dfx.SaveAt(t0=True, steps=True), throw=False)


def g2(t, y, a):
    """(3, 2) vector field"""
    M, b, N = a
    return jnp.stack([M @ jnp.tanh(y) + b, N * y], axis=-1)


def check_solve(case):
    rel, name = case["rel"], case["solver"]
    if case["cplx"] and (name == "Kvaerno3" or rel == "lx"):
        return dict(nontrivial=False, labels=["skip"])
    s = solver(name)
    nt = 0
    for ins in case["inst"]:
        r = rng(ins["seed"])
        dt = "c" if case["cplx"] else "f"
        M, b, y0, N = 0.6 * mk(r, (3, 3), dt), mk(r, (3,), dt), mk(r, (3,), dt), mk(r, (), dt)
        if case["cplx"]:
            y0, M = 0.3 * y0, 0.5 * M  # tanh has poles
        sg = -1 if ins["back"] else 1
        t0 = ins["t0"]
        ts = t0 + sg * ins["L"] * np.concatenate([[0], np.sort(r.uniform(0.05, 0.95, 5)), [1]])
        t1 = ts[-1]
        slope = r.uniform(0.3, 2)
        dtc = lambda a, b, **k: b - a  # noqa: E731
        with sut("solve"):
            if rel in ("dt", "dt-adaptive"):
                if rel == "dt":
                    A = run(dfx.ODETerm(g_dt), s, t0, t1, y0, (M, b), ts)
                    B = run(dfx.ControlTerm(lambda t, y, a: g_dt(t, y, a)[:, None], lambda a, b, **k: jnp.reshape(b - a, (1,))), s, t0, t1, y0, (M, b), ts)
                else:
                    kw = dict(dt0=F(sg * 0.1 * ins["L"]))
                    e = name if name != "Euler" else "Heun"
                    A = run(dfx.ODETerm(g_dt), solver(e), t0, t1, y0, (M, b), ts, ctrl=dfx.PIDController(rtol=1e-4, atol=1e-4, error_order=3.0), **kw)
                    B = run(dfx.ControlTerm(g_dt, dtc), solver(e), t0, t1, y0, (M, b), ts, ctrl=dfx.PIDController(rtol=1e-4, atol=1e-4, error_order=3.0), **kw)
            elif rel == "reparam":
                phi = lambda t, xp=jnp: slope * t + 0.3 * xp.sin(t) * slope  # noqa: E731
                A = run(dfx.ControlTerm(g, lambda a, b, **k: phi(b) - phi(a)), s, t0, t1, y0, (M, b), ts)
                sts = phi(ts, np)
                B = run(dfx.ODETerm(g), s, sts[0], sts[-1], y0, (M, b), sts)
            elif rel == "to_ode":
                X = dfx.LinearInterpolation(F([-5.0, 5.0]), F(np.array([[0.0, 1.0], [10 * slope, -3.0]])))
                ct = dfx.ControlTerm(g2, X)
                A = run(ct, s, t0, t1, y0, (M, b, N), ts)
                B = run(ct.to_ode(), s, t0, t1, y0, (M, b, N), ts)
            elif rel == "split":
                amp = F([slope, 0.4])
                A = run(dfx.MultiTerm(dfx.ODETerm(g_dt), dfx.ControlTerm(g2w, SinPath(amp, 1.3))), s, t0, t1, y0, (M, b, N), ts)
                # one control term with the stacked control
                ctrl = lambda a, b, **k: jnp.concatenate([jnp.reshape(b - a, (1,)), SinPath(amp, 1.3).evaluate(a, b)])  # noqa: E731
                B = run(dfx.ControlTerm(lambda t, y, a: jnp.concatenate([g_dt(t, y, a[:2])[:, None], g2w(t, y, a)], axis=1), ctrl), s, t0, t1, y0, (M, b, N), ts)
            elif rel == "lx":
                X = SinPath(F([slope, 0.4, -1.0]), 1.3)
                A = run(dfx.ControlTerm(lambda t, y, a: jnp.diag(g(t, y, a)), X), s, t0, t1, y0, (M, b), ts)
                B = run(dfx.ControlTerm(lambda t, y, a: lx.DiagonalLinearOperator(g(t, y, a)), X), s, t0, t1, y0, (M, b), ts)
            else:
                X = SinPath(F([slope, 0.4]), 1.3)
                A = run(dfx.ControlTerm(g2w, X), s, t0, t1, y0, (M, b, N), ts)
                B = run(dfx.ControlTerm(g2w, lambda a, b, **k: X.evaluate(a, b)), s, t0, t1, y0, (M, b, N), ts)
        require(bool(A.result == B.result), f"{rel}: results differ: {A.result._value} {B.result._value}")
        close(A.ys, B.ys, f"{rel} with {name}", 1e-7 if name == "Kvaerno3" else 1e-9, 1e-7 if name == "Kvaerno3" else 1e-9)
        nt += bool(A.result == dfx.RESULTS.successful)
    return dict(nontrivial=nt > 0, evals=3, labels=[rel, name])


def g2w(t, y, a):
    return g2(t, y, a) * (1 + 0.5 * jnp.cos(t))


def g_dt(t, y, a):  # noqa: F811
    return g(t, y, a[:2]) * (1 + jnp.sin(t))


PARTS = [
    Part("laws", strat, check, quick=400, thorough=3000),
    Part("solve", strat_solve, check_solve, quick=40, thorough=160),
]
