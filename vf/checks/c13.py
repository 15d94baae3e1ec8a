"""C13: gradients are the derivatives of the computed solution, under every adjoint."""
from typing import Any
from ..core import Part
from ..util import *  # noqa: F401,F403
from .c12 import SinPath

D = 3


def g_ctrl(t, y, a):
    """(3, 2) vector field for control / Brownian terms."""
    A, b, c, w, s = a
    return jnp.stack([jnp.tanh(A @ y + b), c * jnp.cos(w * t) + 0.2 * y], axis=-1)


def _amp(a):
    return jnp.stack([a[3], 0.3 + a[2][0]])


def g_diag(t, y, a):
    A, b, c, w, s = a
    return 0.3 * jnp.diag(jnp.sin(y + b) * c)


def mk_terms(kind, name, tree, args, key):
    if kind == "ode":
        return terms_for(name, tree)
    if kind == "control":
        return dfx.ControlTerm(g_ctrl, SinPath(_amp(args), 1.3))
    if kind == "cubic":
        ts = jnp.linspace(-5.0, 5.0, 9)
        xs = jnp.stack([jnp.sin(args[3] * ts), jnp.cos(ts) * args[2][1]], axis=-1)
        return dfx.ControlTerm(g_ctrl, dfx.CubicInterpolation(ts, dfx.backward_hermite_coefficients(ts, xs)))
    bm = dfx.VirtualBrownianTree(-5.0, 5.0, 1e-3, (D,), key, levy_area=dfx.SpaceTimeLevyArea)
    return dfx.MultiTerm(dfx.ODETerm(f_nl), dfx.ControlTerm(g_diag, bm))


SDE_S = {"Euler": dfx.Euler, "Heun": dfx.Heun, "EulerHeun": dfx.EulerHeun, "SPaRK": dfx.SPaRK, "ItoMilstein": dfx.ItoMilstein,
         "StratonovichMilstein": dfx.StratonovichMilstein, "SlowRK": dfx.SlowRK, "ReversibleHeun": dfx.ReversibleHeun}
IMPLS = set(IMPL) | set(IMEX)


@st.composite
def strat(draw):
    kind = draw(weighted({"ode": 6, "control": 1, "cubic": 1, "sde": 2}))
    if kind == "ode":
        name = draw(weighted({**SOLVER_W, "Half:Heun": 1}))
    elif kind == "sde":
        name = draw(st.sampled_from(sorted(SDE_S)))
    else:
        name = draw(st.sampled_from(["Euler", "Heun", "Tsit5", "ReversibleHeun"]))
    ctrl = draw(st.sampled_from(["const", "stepto", "pid"]))
    if kind == "sde" or name in NOERR:
        ctrl = "stepto" if ctrl == "pid" else ctrl
    return dict(
        kind=kind, name=name, ctrl=ctrl, tree=kind == "ode" and draw(st.sampled_from([False, False, True])),
        ckpt=draw(st.sampled_from([None, None, 1, 2, 3, 5, 40])), bounded=draw(st.booleans()),
        alt=draw(weighted({"direct": 1, "forward": 2, "direct-jvp": 1})),
        save=draw(st.sampled_from(["t1", "ts", "steps", "dense", "fn", "t0t1"])),
        nsteps=draw(st.integers(2, 9)), back=draw(st.booleans()),
        inst=[dict(seed=draw(seeds), t0=draw(frac(-1, 1)), L=draw(frac(0.4, 2))) for _ in range(3)],
    )


def sq(t, y, args):
    return jtu.tree_map(lambda x: jnp.sin(x) * (1 + t), y)


def solve(case, th, ts_eval, key, adjoint, max_steps, grid=None):
    y0, args, t0, t1, dt0 = th
    name = case["name"]
    s = SDE_S[name]() if case["kind"] == "sde" else solver(name)
    terms = mk_terms(case["kind"], name, case["tree"], args, key)
    n = case["nsteps"]
    if case["ctrl"] == "const":
        sc, d0 = dfx.ConstantStepSize(), dt0
    elif case["ctrl"] == "stepto" or grid is not None:
        if grid is None:
            u = jnp.linspace(0, 1, n + 1) ** 1.3
            grid = t0 + (t1 - t0) * u
            grid = grid.at[-1].set(t1)
        sc, d0 = dfx.StepTo(ts=grid), None
    else:
        sc, d0 = dfx.PIDController(rtol=1e-3, atol=1e-3, error_order=2.0 if name == "ReversibleHeun" else None), dt0
    save = case["save"]
    kw = dict(t1=dict(t1=True), ts=dict(ts=ts_eval), steps=dict(steps=True), dense=dict(dense=True),
              fn=dict(ts=ts_eval, t1=True, fn=sq), t0t1=dict(t0=True, t1=True))[save]
    return dfx.diffeqsolve(terms, s, t0, t1, d0, y0, args, stepsize_controller=sc, adjoint=adjoint,
                           saveat=dfx.SaveAt(**kw), max_steps=max_steps, throw=False)


def outputs(case, sol, ts_eval):
    if case["save"] == "dense":
        return jax.vmap(sol.evaluate)(ts_eval), None
    return sol.ys, sol.ts


def make_loss(case, adjoint, max_steps, sde):
    def loss(th, ts_rel, w, key, grid=None):
        if sde:
            th = (*th[:2], *jtu.tree_map(jax.lax.stop_gradient, th[2:]))
        y0, args, t0, t1, dt0 = th
        ts_eval = t0 + (t1 - t0) * ts_rel
        sol = solve(case, th, ts_eval, key, adjoint, max_steps, grid)
        ys, ts = outputs(case, sol, ts_eval)
        tot = 0.0
        for i, y in enumerate(jtu.tree_leaves(ys)):
            fin = jnp.isfinite(y)
            wi = jnp.cos(w * jnp.arange(1, y.size + 1).reshape(y.shape) + i)
            tot = tot + jnp.sum(jnp.where(fin, y, 0.0) * wi)
        if ts is not None and not sde:
            tot = tot + 0.1 * jnp.sum(jnp.where(jnp.isfinite(ts), ts, 0.0))
        return tot, sol.stats["num_steps"], sol.result
    return loss


def dirdot(g, d):
    return float(sum(np.sum(np.asarray(a) * np.asarray(b)) for a, b in zip(jtu.tree_leaves(g), jtu.tree_leaves(d))))


def check(case):
    name, ctrl = case["name"], case["ctrl"]
    sde = case["kind"] == "sde"
    MS = 32
    lossf = lambda adj, ms: make_loss(case, adj, ms, sde)  # noqa: E731
    A = dfx.RecursiveCheckpointAdjoint(checkpoints=case["ckpt"])
    ms = MS if (case["ckpt"] is None or case["bounded"] or case["save"] in ("steps", "dense")) else None
    la = lossf(A, ms)
    vg = eqx.filter_jit(lambda th, *a: jax.value_and_grad(lambda th: la(th, *a)[0])(th))
    val = eqx.filter_jit(lossf(A, MS))  # grid=None: under the case's own controller
    frozen = None
    alt = case["alt"]
    adj = dfx.ForwardMode() if alt == "forward" else dfx.DirectAdjoint()
    lb = lossf(adj, MS)
    if alt == "direct":
        vb = eqx.filter_jit(lambda th, *a: jax.value_and_grad(lambda th: lb(th, *a)[0])(th))
    else:
        vb = eqx.filter_jit(lambda th, d, *a: jax.jvp(lambda th: lb(th, *a)[0], (th,), (d,)))
    nt = 0
    ev = 0
    sg = -1.0 if case["back"] else 1.0
    for ins in case["inst"]:
        r = rng(ins["seed"])
        t0 = ins["t0"]
        t1 = t0 + sg * ins["L"]
        if ctrl == "const":
            dt0 = (t1 - t0) / (case["nsteps"] - r.uniform(0.2, 0.8))
            knots = np.minimum(np.arange(case["nsteps"] + 1) * dt0 / (t1 - t0), 1)
        else:
            dt0 = (t1 - t0) / case["nsteps"]
            knots = np.linspace(0, 1, case["nsteps"] + 1) ** 1.3
        y0 = mk_y0(ins["seed"], D)
        args = mk_args(ins["seed"], D, scale=0.6)
        key = jr.PRNGKey(ins["seed"])
        th = (to_tree(y0) if case["tree"] else y0, args, F(t0), F(t1), F(dt0))
        rel = np.sort(r.uniform(0.02, 0.98, 4))
        if ctrl != "pid":
            rel = np.array([x if np.min(np.abs(x - knots)) > 1e-3 else x + 0.004 for x in rel])
        rel = F(rel)
        w = F(r.uniform(0.5, 2.5))
        d = jtu.tree_map(lambda x: F(r.normal(size=np.shape(x))), th)
        d = (*d[:2], 0.3 * d[2], 0.3 * d[3], 0.3 * d[4])
        with sut("primal"):
            _, nsteps, result = val(th, rel, w, key, None)
        if not bool(result == dfx.RESULTS.successful):
            continue
        with sut("gradient"):
            v, g = vg(th, rel, w, key)
        for leaf in jtu.tree_leaves(g):
            require(bool(np.all(np.isfinite(np.asarray(leaf)))), f"{name}: non-finite gradient {leaf}")
        tol = 2e-5 if name in IMPLS or name.startswith("Half") else 2e-7
        sc = 1 + max(float(np.max(np.abs(np.asarray(x)), initial=0)) for x in jtu.tree_leaves(g))
        # 1. alternative adjoint
        with sut(f"alternative adjoint {alt}"):
            if alt == "direct":
                v2, g2 = vb(th, rel, w, key)
                close(g2, g, f"{name}/{case['save']}: gradient of {type(adj).__name__} vs RecursiveCheckpoint({case['ckpt']})", tol, tol * sc * 0.1)
            else:
                v2, dv = vb(th, d, rel, w, key)
                close(dv, F(dirdot(g, d)), f"{name}/{case['save']}: jvp under {type(adj).__name__} vs vjp under RecursiveCheckpoint({case['ckpt']})", tol, tol * sc)
        close(v2, v, f"{name}: primal value under {alt}", 1e-7 if name in IMPLS else 1e-10, 1e-9)
        ev += 2
        # 2. finite differences of what was computed (with the accepted steps frozen if adaptive)
        if ctrl == "pid":
            with sut("steps"):
                full = solve(dict(case, save="steps"), th, None, key, A, MS)
            knots = np.asarray(full.ts)
            knots = np.concatenate([[t0], knots[np.isfinite(knots)]])
            d = (*d[:2], F(0.0), F(0.0), F(0.0))
            if frozen is None or frozen[0] != len(knots):
                frozen = (len(knots), eqx.filter_jit(lossf(A, MS)))
            ev_rel = np.asarray(rel)
            kn = (knots - t0) / (t1 - t0)
            if min(abs(x - k) for x in ev_rel for k in kn) < 1e-5:
                continue
            if case["save"] == "steps" and len(knots) - 1 > MS:
                continue
            fd_loss = lambda th: frozen[1](th, rel, w, key, F(knots))[0]  # noqa: E731
            pv = fd_loss(th)
            close(pv, v, f"{name}: same steps, same values", 1e-7, 1e-8)
        elif sde:
            d = (*d[:2], F(0.0), F(0.0), F(0.0))
            fd_loss = lambda th: val(th, rel, w, key, None)[0]  # noqa: E731
        else:
            fd_loss = lambda th: val(th, rel, w, key, None)[0]  # noqa: E731
        eps = 1e-5
        with sut("finite differences"):
            mv = lambda e: jtu.tree_map(lambda x, y: x + e * y, th, d)  # noqa: E731
            f1 = float(fd_loss(mv(eps))) - float(fd_loss(mv(-eps)))
            f2 = float(fd_loss(mv(2 * eps))) - float(fd_loss(mv(-2 * eps)))
            fd = (8 * f1 - f2) / (12 * eps)
        ad = dirdot(g, d)
        ftol = 1e-4 if name in IMPLS or name.startswith("Half") else 1e-6
        # a knot crossing an evaluation time or a changed number of steps would make this a kink
        require(abs(fd - ad) <= ftol * (sc + abs(fd)), lambda: f"{name}/{ctrl}/{case['save']}: directional derivative {ad!r}, finite differences {fd!r}")
        nt += abs(ad) > 1e-6 and int(nsteps) >= 2
        ev += 5
    return dict(nontrivial=nt > 0, evals=ev, labels=[case["kind"], name, ctrl, case["save"], alt, f"ckpt={case['ckpt']}"])


# ------------------------------------------------------------------ events
@st.composite
def strat_ev(draw):
    return dict(name=draw(st.sampled_from(["Euler", "Tsit5", "Dopri5", "Heun", "Kvaerno3", "ReversibleHeun"])), alt=draw(st.sampled_from(["rev", "fwd"])),
                tree=draw(st.booleans()), nsteps=draw(st.integers(3, 8)), use_t=draw(st.booleans()), nev=draw(st.integers(1, 2)),
                inst=[dict(seed=draw(seeds), u=draw(frac(0.1, 0.9))) for _ in range(4)])


def check_ev(case):
    name = case["name"]
    lin = dfx.ODETerm(f_tree if case["tree"] else f_nl)

    def loss(th, thr, w, adj):
        y0, args, t0, t1, lev = th

        def cond(t, y, a, **k):
            z = from_tree(y) if case["tree"] else y
            return z[0] - lev + (0.3 * jnp.sin(t - t0) if case["use_t"] else 0.0)

        cf = cond if case["nev"] == 1 else [lambda t, y, a, **k: t > 1e6, cond]
        ev = dfx.Event(cf, optx.Newton(1e-12, 1e-12))
        u = jnp.linspace(0, 1, case["nsteps"] + 1)
        sol = dfx.diffeqsolve(lin, solver(name), t0, t1, None, y0, args, stepsize_controller=dfx.StepTo((t0 + u * (t1 - t0)).at[-1].set(t1)),
                              event=ev, adjoint=adj, max_steps=16, saveat=dfx.SaveAt(t1=True), throw=False)
        z = from_tree(sol.ys) if case["tree"] else sol.ys
        return jnp.sum(z[0] * w) + sol.ts[0], sol.result, sol.ts[0]

    A = dfx.RecursiveCheckpointAdjoint()
    val = eqx.filter_jit(lambda *a: loss(*a, A))
    if case["alt"] == "rev":
        vg = eqx.filter_jit(lambda th, d, *a: (lambda vg: vg)(jax.grad(lambda th: loss(th, *a, A)[0])(th)))
    else:
        vg = eqx.filter_jit(lambda th, d, *a: jax.jvp(lambda th: loss(th, *a, dfx.ForwardMode())[0], (th,), (d,))[1])
    nt = 0
    for ins in case["inst"]:
        r = rng(ins["seed"])
        y0, args = mk_y0(ins["seed"], D), mk_args(ins["seed"], D, scale=0.6)
        t0, t1 = F(r.uniform(-1, 1)), F(0)
        t1 = t0 + F(r.uniform(0.5, 2))
        free = dfx.diffeqsolve(dfx.ODETerm(f_nl), dfx.Tsit5(), t0, t1, None, y0, args, saveat=dfx.SaveAt(ts=t0 + jnp.linspace(0, 0.99, 5) * (t1 - t0)),
                               stepsize_controller=dfx.StepTo(jnp.linspace(t0, t1, 9).at[-1].set(t1)), max_steps=16)
        tt = np.linspace(float(t0), float(t1), 5)
        z = np.asarray(free.ys)[:, 0] + (0.3 * np.sin(tt - float(t0)) if case["use_t"] else 0)
        lev = F(z[0] + ins["u"] * (z[3] - z[0]))
        w = F(r.uniform(-1, 1, D))
        th = (to_tree(y0) if case["tree"] else y0, args, t0, t1, lev)
        d = jtu.tree_map(lambda x: F(r.normal(size=np.shape(x))), th)
        with sut("primal"):
            v, res, tf = val(th, None, w)
        if not bool(res == dfx.RESULTS.event_occurred):
            continue
        u = (float(tf) - float(t0)) / float(t1 - t0) * case["nsteps"]
        if abs(u - round(u)) < 1e-2:
            continue
        # transversality
        e = 1e-4
        h = [float(val((*th[:4], lev + s * e), None, w)[2]) for s in (1, -1)]
        if not np.all(np.isfinite(h)) or abs(h[0] - h[1]) / (2 * e) > 20 or abs(abs(h[0] - float(tf)) - abs(h[1] - float(tf))) > 0.1 * abs(h[0] - h[1]):
            continue
        with sut("gradient of the located event"):
            g = vg(th, d, None, w)
        ad = float(g) if case["alt"] == "fwd" else dirdot(g, d)
        eps = 3e-6
        mv = lambda e: jtu.tree_map(lambda x, y: x + e * y, th, d)  # noqa: E731
        fd = [float(val(mv(s * eps), None, w)[0]) for s in (1, -1, 2, -2)]
        fd1, fd2 = (fd[0] - fd[1]) / (2 * eps), (fd[2] - fd[3]) / (4 * eps)
        if abs(fd1 - fd2) > 1e-5 * (1 + abs(fd1)):
            continue
        require(abs(ad - fd1) <= 1e-4 * (1 + abs(fd1)) + 3 * abs(fd1 - fd2),
                f"{name}: derivative through the event time ({case['alt']}): {ad!r}, finite differences {fd1!r}")
        nt += 1
    return dict(nontrivial=nt > 0, evals=6 * max(nt, 1), labels=[name, case["alt"]])


# ------------------------------------------------------------------ continuous adjoint
@st.composite
def strat_bs(draw):
    return dict(kind=draw(st.sampled_from(["ode", "complex", "control", "tree", "control-complex"])),
                name=draw(st.sampled_from(["Tsit5", "Dopri5", "Dopri8", "Bosh3", "Kvaerno5"])),
                ctrl=draw(st.sampled_from(["pid", "pid", "const"])), bsolver=draw(st.sampled_from([None, None, "Dopri5", "Tsit5"])),
                save=draw(st.sampled_from(["t1", "ts", "t0ts", "t0t1", "t0ts3", "t0"])), back=draw(st.booleans()),
                inst=[dict(seed=draw(seeds), L=draw(frac(0.3, 1.2))) for _ in range(2)])


def f_cx(t, y, a):
    A, b, c, w, s = a["p"][:5]
    return (A @ y) * (0.5 + 0.8j) * a["p"][5] + 0.3 * y**2 + c * jnp.exp(1j * w * t) + jnp.conj(y) * b * a["k"]


def f_args(t, y, a):
    return f_nl(t, y, a["p"][:5]) * a["k"]


def f_args_tree(t, z, a):
    return to_tree(f_args(t, from_tree(z), a))


def g_args(t, y, a):
    return g_ctrl(t, y, a["p"][:5])


def g_args_cx(t, y, a):
    A, b, c, w, s = a["p"][:5]
    q = (0.4 + 0.9j) * a["p"][5]
    return jnp.stack([q * (A @ y) + b, c * 1j * jnp.cos(w * t) + 0.2 * q * y], axis=-1)


def fixed_control(t0, t1, **kwargs):
    h = lambda t: jnp.stack([0.8 * jnp.sin(1.1 * t), 0.5 * jnp.cos(t)])  # noqa: E731
    return h(t1) - h(t0)


class ParamField(eqx.Module):
    """Vector field with its own parameters (gradients with respect to `terms`)."""

    scale: Any
    n: int
    f: Any = eqx.field(static=True)

    def __call__(self, t, y, a):
        return jtu.tree_map(lambda x: x * self.scale * (1 if self.n == 1 else 0), self.f(t, y, a))


def check_bs(case):
    kind = case["kind"]
    cx = "complex" in kind
    name = case["name"] if not (cx and case["name"] == "Kvaerno5") else "Tsit5"
    sg = -1.0 if case["back"] else 1.0

    def loss(th, w, t0, t1, tsr, adj, ms):
        y0, args, scale, amp = th
        args = dict(args, n=3)
        fs = dict(ode=f_args, complex=f_cx, tree=f_args_tree)
        if kind in fs:
            term = dfx.ODETerm(ParamField(scale, 1, fs[kind]))
        else:
            term = dfx.ControlTerm(ParamField(scale, 1, g_args_cx if cx else g_args), fixed_control if cx else SinPath(amp, 1.1))
        save = case["save"]
        ts = t0 + (t1 - t0) * tsr
        kw = dict(t1=dict(t1=True), ts=dict(ts=ts, t1=True), t0ts=dict(t0=True, ts=ts), t0t1=dict(t0=True, t1=True),
                  t0ts3=dict(t0=True, ts=ts[:1], t1=True), t0=dict(t0=True))[save]
        if case["ctrl"] == "pid" and "control" not in kind:
            sc, dt0 = dfx.PIDController(rtol=1e-8, atol=1e-8), None
        else:
            # (Runge--Kutta methods are low order for multidimensional controls)
            sc, dt0 = dfx.ConstantStepSize(), (t1 - t0) / (200.3 if "control" in kind else 40.3)
        sol = dfx.diffeqsolve(term, solver(name), t0, t1, dt0, y0, args, stepsize_controller=sc, adjoint=adj, saveat=dfx.SaveAt(**kw), max_steps=ms)
        tot = 0.0
        for i, y in enumerate(jtu.tree_leaves(sol.ys)):
            wi = jnp.cos(w * jnp.arange(1, y.size + 1).reshape(y.shape) + i)
            y = y * jnp.exp(0.7j) if cx else y
            tot = tot + jnp.sum(wi * jnp.real(y) + 0.5 * wi * jnp.abs(y) ** 2)
        return tot

    bkw = {}
    if case["bsolver"] is not None:
        bkw["solver"] = solver(case["bsolver"])
    G = lambda adj, ms: eqx.filter_jit(lambda th, *a: jax.value_and_grad(lambda th: loss(th, *a, adj, ms))(th))  # noqa: E731
    gb = G(dfx.BacksolveAdjoint(**bkw), 4096)
    gr = G(dfx.RecursiveCheckpointAdjoint(), 1024)
    nt, zero_ctrl = 0, None
    for ins in case["inst"]:
        r = rng(ins["seed"])
        y0 = mk_y0(ins["seed"], D)
        p = mk_args(ins["seed"], D, scale=0.5)
        if cx:
            # (mixtures of real and complex leaves are not supported by Runge--Kutta solvers)
            p = tuple(F(x) + (0.4j if i < 3 else 0.1j) * F(r.uniform(-1, 1, np.shape(x))) for i, x in enumerate(p))
            y0 = 0.3 * (y0 + 1j * F(r.uniform(-1, 1, D)))
        args = {"p": (*p, (F(1.0) if not cx else jnp.asarray(0.9 - 0.2j))), "k": F(r.uniform(0.5, 1.0)) + (0.2j if cx else 0), "m": None}
        th = (to_tree(y0) if kind == "tree" else y0, args, F(r.uniform(0.6, 1.2)) + (0.1j if cx else 0), F(r.uniform(-1, 1, 2)) + (0.3j if cx else 0))
        t0 = F(r.uniform(-1, 1))
        t1 = t0 + sg * ins["L"]
        tsr = F(np.sort(r.uniform(0.05, 0.95, 3)))
        w = F(r.uniform(0.5, 2.5))
        with sut("backsolve"):
            v1, g1 = gb(th, w, t0, t1, tsr)
            v2, g2 = gr(th, w, t0, t1, tsr)
        sc = max(float(np.max(np.abs(np.asarray(x)), initial=0)) for x in jtu.tree_leaves(g2))
        tol = 2e-3 if ((case["ctrl"] == "const" and name == "Bosh3") or "control" in kind) else 3e-5
        close(v1, v2, f"{kind}: primal under backsolve", 1e-9, 1e-9)
        close(g1[:3], g2[:3], f"{kind}/{name}/{case['save']}: BacksolveAdjoint gradient", tol, tol * (sc + 1))
        if kind == "control" and np.any(np.asarray(g2[3]) != 0):
            # parameters of the control itself
            if np.all(np.asarray(g1[3]) == 0):
                zero_ctrl = f"BacksolveAdjoint gradient of the parameters of a ControlTerm's control is {g1[3]}, should be {g2[3]}"
            else:
                close(g1[3], g2[3], f"{kind}/{name}/{case['save']}: BacksolveAdjoint gradient (control)", tol, tol * (sc + 1))
        nt += sc > 1e-3
    if zero_ctrl is not None:
        fail(zero_ctrl, key="backsolve-control-parameters")
    return dict(nontrivial=nt > 0 and case["save"] != "t0", evals=4, labels=[kind, name, case["ctrl"], case["save"]])


# ------------------------------------------------------------------ steady state
@st.composite
def strat_ss(draw):
    return dict(name=draw(st.sampled_from(["Tsit5", "Heun", "Kvaerno3", "ImplicitEuler", "KenCarp3"])), tree=draw(st.booleans()),
                mode=draw(st.sampled_from(["grad", "jvp"])), where=draw(st.sampled_from(["args", "terms"])),
                inst=[dict(seed=draw(seeds)) for _ in range(2)])


def check_ss(case):
    name = case["name"]
    imex = name == "KenCarp3"
    tol_ = dict(Tsit5=1e-8, Heun=1e-6).get(name, 1e-7)

    def field(frac_, p, tree):
        def f(t, y, a):
            q = p if case["where"] == "terms" else a
            z = from_tree(y) if tree else y
            out = frac_ * (-(q["K"] @ z) - 0.3 * z**3 + q["b"] + 0.2 * jnp.sin(z[::-1]))
            return to_tree(out) if tree else out
        return f

    def solve_(y0, q):
        mk = lambda c: dfx.ODETerm(field(c, q, case["tree"]))  # noqa: E731
        if case["where"] == "terms":
            mk = lambda c: dfx.ODETerm(PF(q, c, case["tree"]))  # noqa: E731
        term = dfx.MultiTerm(mk(0.5), mk(0.5)) if imex else mk(1.0)
        sol = dfx.diffeqsolve(term, solver(name), 0.0, jnp.inf, 0.1, y0, q, max_steps=3000, adjoint=dfx.ImplicitAdjoint(),
                              stepsize_controller=dfx.PIDController(rtol=tol_, atol=tol_),
                              event=dfx.Event(dfx.steady_state_event(rtol=10 * tol_, atol=10 * tol_)), throw=False)
        ys = jtu.tree_map(lambda x: x[-1], sol.ys)
        return from_tree(ys) if case["tree"] else ys, sol.result

    out = eqx.filter_jit(solve_)
    grad = eqx.filter_jit(lambda y0, q, w: jax.grad(lambda yq: jnp.sum(w * solve_(*yq)[0]))((y0, q)))
    jv = eqx.filter_jit(lambda y0, q, dy, dq: jax.jvp(lambda yq: solve_(*yq)[0], ((y0, q),), ((dy, dq),))[1])
    nt = 0
    for ins in case["inst"]:
        r = rng(ins["seed"])
        K = np.eye(D) * 1.5 + 0.4 * r.uniform(-1, 1, (D, D))
        q = {"K": F(K), "b": F(r.uniform(-1, 1, D))}
        y0 = mk_y0(ins["seed"], D)
        y0 = to_tree(y0) if case["tree"] else y0
        with sut("steady state"):
            z, res = out(y0, q)
        if not bool(res == dfx.RESULTS.event_occurred):
            continue
        z = np.asarray(z)
        J = -K - np.diag(0.9 * z**2) + 0.2 * np.diag(np.cos(z[::-1])) @ np.eye(D)[::-1]
        F0 = -(K @ z) - 0.3 * z**3 + np.asarray(q["b"]) + 0.2 * np.sin(z[::-1])
        require(np.max(np.abs(F0)) < 200 * tol_, f"{name}: not a steady state: residual {F0}")
        if case["mode"] == "grad":
            w = r.normal(size=D)
            with sut("implicit adjoint"):
                gy, gq = grad(y0, q, F(w))
            lam = -np.linalg.solve(J.T, w)
            close(gq["b"], lam, f"{name}: ImplicitAdjoint gradient (b)", 1e-3, 1e-4)
            close(gq["K"], -np.outer(lam, z), f"{name}: ImplicitAdjoint gradient (K)", 1e-3, 1e-4)
            close(jtu.tree_map(lambda x: x, gy), jtu.tree_map(lambda x: np.zeros(np.shape(x)), y0), f"{name}: ImplicitAdjoint gradient (y0)", 0, 1e-12)
        else:
            db, dK = r.normal(size=D), r.normal(size=(D, D))
            with sut("implicit adjoint jvp"):
                dz = jv(y0, q, jtu.tree_map(jnp.ones_like, y0), {"K": F(dK), "b": F(db)})
            close(dz, -np.linalg.solve(J, db - dK @ z), f"{name}: ImplicitAdjoint tangent", 1e-3, 1e-4)
        nt += 1
    return dict(nontrivial=nt > 0, evals=2, labels=[name, case["mode"], case["where"]])


class PF(eqx.Module):
    q: Any
    c: float = eqx.field(static=True)
    tree: bool = eqx.field(static=True)

    def __call__(self, t, y, a):
        z = from_tree(y) if self.tree else y
        out = self.c * (-(self.q["K"] @ z) - 0.3 * z**3 + self.q["b"] + 0.2 * jnp.sin(z[::-1]))
        return to_tree(out) if self.tree else out



PARTS = [
    Part("discrete", strat, check, quick=16, thorough=120),
    Part("event", strat_ev, check_ev, quick=4, thorough=40),
    Part("backsolve", strat_bs, check_bs, quick=8, thorough=60),
    Part("steady", strat_ss, check_ss, quick=4, thorough=30),
]
