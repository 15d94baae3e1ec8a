"""C02: backward solves equal the reflected forward problem."""
from ..core import Part
from ..util import *  # noqa: F401,F403

MAXS = 64


def fn_t(t, y, args):
    v = jnp.concatenate([jnp.ravel(l) for l in jtu.tree_leaves(y)])
    return {"t": jnp.cos(args[-1] * t) + 0.0 * v[0], "q": jnp.sum(v) * args[-1] * t}


def ev_real(t, y, args, **kw):
    v = jnp.concatenate([jnp.ravel(l) for l in jtu.tree_leaves(y)])
    return jnp.sum(v * args[1]) + 0.3 * jnp.sin(2.0 * args[-1] * t) - args[2][0]


def ev_bool(t, y, args, **kw):
    v = jnp.concatenate([jnp.ravel(l) for l in jtu.tree_leaves(y)])
    return (v[0] > args[2][0]) & (args[-1] * t < args[1][0])


def ev_time(t, y, args, **kw):
    return args[-1] * t - args[1][0]


EVENTS = {
    "real": lambda: dfx.Event(ev_real, optx.Newton(1e-6, 1e-6)),
    "real_bisect": lambda: dfx.Event(ev_time, optx.Bisection(1e-7, 1e-7)),
    "real_noroot": lambda: dfx.Event(ev_real),
    "bool": lambda: dfx.Event(ev_bool),
    "multi": lambda: dfx.Event([ev_real, ev_time], optx.Newton(1e-6, 1e-6), direction=[True, None]),
}
TRUE_ONLY = {"multi"}


@st.composite
def strat_ode(draw):
    name = draw(weighted(SOLVER_W))
    ctrl = draw(st.sampled_from(["const", "stepto"] if name in NOERR else
                                ["const", "pid", "pid0", "clip", "clip"]))
    inst = [dict(seed=draw(seeds), t0=draw(frac(-2, 2)), length=draw(frac(0.3, 3.0)),
                 n=draw(st.integers(2, 9)), us=draw(st.lists(unit, min_size=4, max_size=4)))
            for _ in range(2)]
    return dict(solver=name, ctrl=ctrl, tree=draw(st.booleans()), saves=draw(st.sampled_from(
        ["ts", "tsfn", "steps", "steps2", "t0t1", "mixed"])), dense=draw(st.booleans()),
        event=draw(st.sampled_from([None, None, *sorted(EVENTS)])), inst=inst)


def compare(b, f, what, atol=1e-9, rtol=1e-8):
    """b: backward solve, f: reflected forward solve."""
    require(b.result == f.result, f"{what}: result {b.result._value} vs {f.result._value}")
    for k in ("num_steps", "num_accepted_steps", "num_rejected_steps"):
        require(int(b.stats[k]) == int(f.stats[k]), f"{what}: {k} {b.stats[k]} vs {f.stats[k]}")
    if f.ts is not None:
        for x, y in zip(jtu.tree_leaves(b.ts), jtu.tree_leaves(f.ts)):
            x, y = np.asarray(x), np.asarray(y)
            require(np.array_equal(np.isfinite(x), np.isfinite(y)), f"{what}: {x} vs {y}")
            m = np.isfinite(x)
            close(x[m], -y[m], f"{what}: ts", rtol, atol)
        close(b.ys, f.ys, f"{what}: ys", rtol, atol)
    same_structure(b.event_mask, f.event_mask, "event mask")
    if f.event_mask is not None:
        close(b.event_mask, f.event_mask, f"{what}: event mask")


def check_ode(case):
    name, tree = case["solver"], case["tree"]
    s, terms = solver(name), terms_for(name, tree)
    evals = nt = 0
    lab = []
    for ins in case["inst"]:
        out = []
        for sgn in (1, -1):  # 1: the backward solve, -1: the reflected forward one
            t0 = sgn * ins["t0"]
            t1 = t0 - sgn * ins["length"]
            d = -sgn
            r = rng(ins["seed"] + 1)
            dt0 = F(d * ins["length"] / (ins["n"] - 0.4))
            if case["ctrl"] == "const":
                sc = dfx.ConstantStepSize()
            elif case["ctrl"] == "stepto":
                g = np.concatenate([[0], np.cumsum(r.uniform(0.2, 1, 5))])
                ts = t0 + d * ins["length"] * g / g[-1]
                ts[-1] = t1
                sc, dt0 = dfx.StepTo(ts=F(ts)), None
            else:
                sc = pid(1e-3, 1e-4)
                if case["ctrl"] == "clip":
                    u = r.uniform(0.05, 0.95, 5)
                    sc = dfx.ClipStepSizeController(sc, step_ts=F(t0 + (t1 - t0) * u[:3]),
                                                    jump_ts=F(t0 + (t1 - t0) * u[3:]), store_rejected_steps=20)
                if case["ctrl"] == "pid0":
                    dt0 = None
            ts = np.sort(t0 + (t1 - t0) * np.array(ins["us"]))[::d]
            ts = F(np.clip(ts, min(t0, t1), max(t0, t1)))
            sv = dict(ts=dict(ts=ts), tsfn=dict(ts=ts, fn=fn_t), steps=dict(t0=True, steps=True),
                      steps2=dict(steps=2, t1=True, fn=fn_t), t0t1=dict(t0=True, t1=True),
                      mixed=dict(t0=True, t1=True, ts=ts, steps=1))[case["saves"]]
            y0 = mk_y0(ins["seed"], 2)
            args = mk_args(ins["seed"], 2, sign=float(sgn))
            ev = None if case["event"] is None else EVENTS[case["event"]]()
            with sut("solve"):
                out.append(dfx.diffeqsolve(
                    terms, s, F(t0), F(t1), dt0, to_tree(y0) if tree else y0, args,
                    stepsize_controller=sc, saveat=dfx.SaveAt(dense=case["dense"], **sv),
                    max_steps=MAXS, throw=False, event=ev))
        b, f = out
        compare(b, f, f"{name}/{case['ctrl']}")
        evals += 1
        nt += int(b.stats["num_steps"]) >= 2
        if b.result == dfx.RESULTS.event_occurred:
            lab.append("event")
        if case["dense"] and f.result == dfx.RESULTS.successful:
            for u in ins["us"][:3]:
                t = ins["t0"] - ins["length"] * (0.001 + 0.998 * u)
                with sut("evaluate"):
                    close(b.evaluate(F(t)), f.evaluate(F(-t)), "dense output", 1e-8, 1e-8)
                    close(b.derivative(F(t)), jtu.tree_map(lambda x: -x, f.derivative(F(-t))),
                          "derivative of dense output", 1e-7, 1e-7)
                    close(b.evaluate(F(t), F(ins["t0"])), f.evaluate(F(-t), F(-ins["t0"])), "increment", 1e-8, 1e-8)
    return dict(nontrivial=nt > 0, evals=evals, labels=[name, case["ctrl"], f"event={case['event']}", *lab])


# ------------------------------------------------------------------ control terms, SDEs
class PolyPath(dfx.AbstractPath):
    """X(t) = sum_k c_k (s t)^k, a 2-dimensional control."""
    c: jax.Array
    s: jax.Array
    t0: float = -10.0
    t1: float = 10.0

    def _at(self, t):
        x = self.s * t
        return self.c[0] * x + self.c[1] * x**2 + jnp.sin(x * self.c[2])

    def evaluate(self, t0, t1=None, left=True):
        if t1 is None:
            return self._at(t0)
        return self._at(t1) - self._at(t0)

    def derivative(self, t, left=True):
        return jax.jvp(self._at, (t,), (jnp.ones_like(t),))[1]


class FnControl(eqx.Module):
    path: PolyPath

    def __call__(self, t0, t1):
        return self.path.evaluate(t0, t1)


class Reflected(dfx.AbstractBrownianPath):
    """W~(t) = W(-t) when s == -1; W itself when s == 1."""
    base: dfx.VirtualBrownianTree
    levy_area: type = eqx.field(static=True)

    @property
    def t0(self):
        return -self.base.t1

    @property
    def t1(self):
        return -self.base.t0

    def evaluate(self, t0, t1=None, left=True, use_levy=False):
        if t1 is None:
            return self.base.evaluate(-t0)
        out = self.base.evaluate(-t1, -t0, use_levy=use_levy)
        if not use_levy:
            return -out
        kw = dict(dt=out.dt, W=-out.W)
        if hasattr(out, "H"):
            kw["H"] = out.H
        if hasattr(out, "K"):
            kw["K"] = -out.K
        return type(out)(**kw)


def g_add(t, y, args):
    A, b, c, w, s = args
    return jnp.outer(b, c) * (1 + 0.3 * jnp.sin(s * t)) + A * 0.3


def g_mul(t, y, args):
    A, b, c, w, s = args
    return jnp.stack([jnp.sin(A @ y + s * t), jnp.cos(y * b)], axis=1) * 0.5


def g_scal(t, y, args):
    A, b, c, w, s = args
    return 0.5 * jnp.sin(A @ y + b + s * t)


BI, ST, STT = dfx.BrownianIncrement, dfx.SpaceTimeLevyArea, dfx.SpaceTimeTimeLevyArea
# solver -> (factory, noise kinds, levy area)
SDE = {
    "Heun": (dfx.Heun, ["mul", "add"], BI), "Midpoint": (dfx.Midpoint, ["mul"], BI),
    "Euler": (dfx.Euler, ["mul", "add"], BI),
    "EulerHeun": (dfx.EulerHeun, ["mul", "add"], BI),
    "StratonovichMilstein": (dfx.StratonovichMilstein, ["scal"], BI),
    "ReversibleHeun": (dfx.ReversibleHeun, ["mul"], BI),
    "SRA1": (dfx.SRA1, ["add"], ST), "SEA": (dfx.SEA, ["add"], ST), "ShARK": (dfx.ShARK, ["add"], ST),
    "SlowRK": (dfx.SlowRK, ["scal", "mul"], ST), "SPaRK": (dfx.SPaRK, ["mul", "scal"], ST),
    "GeneralShARK": (dfx.GeneralShARK, ["mul", "scal"], ST),
}
ADAPT = {"Heun", "ReversibleHeun", "SRA1", "ShARK", "SPaRK"}


@st.composite
def strat_sde(draw):
    kind = draw(st.sampled_from(["path", "fn", "to_ode", "sde", "sde", "sde", "sde"]))
    name = draw(st.sampled_from(sorted(SDE))) if kind == "sde" else draw(
        st.sampled_from(["Euler", "Heun", "Tsit5", "ReversibleHeun", "Dopri5"]))
    noise = draw(st.sampled_from(SDE[name][1])) if kind == "sde" else "mul"
    adapt = kind != "to_ode" and (name in ADAPT) and draw(st.booleans())
    inst = [dict(seed=draw(seeds), t0=draw(frac(-1, 2)), length=draw(frac(0.3, 1.5)), n=draw(st.integers(2, 7)))
            for _ in range(2)]
    return dict(kind=kind, solver=name, noise=noise, adapt=adapt, levy=draw(st.booleans()), inst=inst)


def check_sde(case):
    evals = 0
    kind = case["kind"]
    for ins in case["inst"]:
        out = []
        r = rng(ins["seed"])
        c = F(r.uniform(-1, 1, (3, 2)))
        key = jr.PRNGKey(ins["seed"])
        for sgn in (1, -1):
            t0 = sgn * ins["t0"]
            t1 = t0 - sgn * ins["length"]
            dt0 = F(-sgn * ins["length"] / (ins["n"] - 0.4))
            args = mk_args(ins["seed"], 2, sign=float(sgn))
            if kind == "sde":
                fac, _, levy = SDE[case["solver"]]
                s = fac()
                if case["levy"] and levy is BI:
                    levy = ST
                bm = dfx.VirtualBrownianTree(F(-4.0), F(4.0), F(1e-3), () if case["noise"] == "scal" else (2,), key, levy)
                if sgn == -1:
                    bm = Reflected(bm, levy)
                g = dict(add=g_add, mul=g_mul, scal=g_scal)[case["noise"]]
                diff = dfx.ControlTerm(g, bm)
            else:
                s = solver(case["solver"])
                X = PolyPath(c, F(sgn))
                if kind == "path":
                    diff = dfx.ControlTerm(g_mul, X)
                elif kind == "fn":
                    diff = dfx.ControlTerm(g_mul, FnControl(X))
                else:
                    diff = dfx.ControlTerm(g_mul, X).to_ode()
            terms = dfx.MultiTerm(dfx.ODETerm(f_nl), diff)
            sc = dfx.ConstantStepSize()
            if case["adapt"]:
                sc = dfx.PIDController(rtol=F(1e-2), atol=F(1e-2), dtmin=F(ins["length"] / 40))
            with sut("solve"):
                out.append(dfx.diffeqsolve(
                    terms, s, F(t0), F(t1), dt0, mk_y0(ins["seed"], 2), args, stepsize_controller=sc,
                    saveat=dfx.SaveAt(t0=True, steps=True), max_steps=MAXS, throw=False))
        compare(out[0], out[1], f"{kind}/{case['solver']}/{case['noise']}")
        evals += 1
    return dict(nontrivial=True, evals=evals, labels=[kind, f"{kind}:{case['solver']}:{case['noise']}"])


PARTS = [
    Part("ode", strat_ode, check_ode, quick=96, thorough=250),
    Part("control", strat_sde, check_sde, quick=64, thorough=200),
]
