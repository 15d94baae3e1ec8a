"""C05: fixed step grids."""
import math

from ..core import Part
from ..util import *  # noqa: F401,F403
from ..scripted import *  # noqa: F401,F403

MAXS = 300


def vf0(t, y, args):
    return -y * args + jnp.sin(t)


@st.composite
def strat_const(draw):
    inst = []
    for _ in range(draw(st.integers(10, 20))):
        kind = draw(st.sampled_from(["divide", "divide", "ratio", "decimal"]))
        inst.append(dict(
            kind=kind, t0=draw(st.one_of(frac(-5, 5), st.sampled_from([0.0, 1.0, 100.0, 0.1]))),
            n=draw(st.integers(1, 200)),
            length=draw(st.one_of(frac(0.01, 20), st.sampled_from([1.0, 0.3, 10.0, 1e-3, 1e4]))),
            dt=draw(st.sampled_from([0.1, 0.01, 0.05, 0.3, 0.7, 1 / 3, 0.125, 1e-3])),
            ratio=draw(frac(0.01, 60)), direction=draw(st.sampled_from([1, 1, -1]))))
    return dict(dtype=draw(st.sampled_from(["f64", "f64", "f32"])),
                solver=draw(st.sampled_from(["Euler", "Heun", "Tsit5"])), inst=inst)


def check_const(case):
    evals = nt = 0
    dt = np.float64 if case["dtype"] == "f64" else np.float32
    eps = np.finfo(dt).eps
    s = solver(case["solver"])
    for ins in case["inst"]:
        d = ins["direction"]
        t0 = dt(ins["t0"])
        if ins["kind"] == "divide":
            L = dt(ins["length"])
            h = dt(L / ins["n"])
        elif ins["kind"] == "ratio":
            L = dt(ins["length"])
            h = dt(L / ins["ratio"])
        else:
            h = dt(ins["dt"])
            L = dt(h * ins["n"])
        t1 = dt(t0 + d * L)
        if t1 == t0:
            continue
        Lr = abs(float(t1) - float(t0))
        q = Lr / float(h)  # real number of steps
        # rounding of t1 itself (and of dt0) makes q uncertain by this much
        # (and last steps within 100 ULPs of t1 are merged into the one before)
        unc = 8 * eps * max(1.0, q) + 250 * eps * max(abs(float(t0)), abs(float(t1))) / float(h)
        lo, hi = math.ceil(q - unc), math.ceil(q + unc)
        lo = max(lo, 1)
        if hi > MAXS - 1 or unc > 0.1:
            continue
        y0 = jnp.asarray(0.5, dt)
        args = jnp.asarray(0.1, dt)
        with sut("solve"):
            sol = dfx.diffeqsolve(
                dfx.ODETerm(vf0), s, jnp.asarray(t0), jnp.asarray(t1), jnp.asarray(dt(d * h)), y0,
                args, saveat=dfx.SaveAt(t0=True, steps=True), max_steps=MAXS, throw=False)
        evals += 1
        require(sol.result == dfx.RESULTS.successful, "fixed-step solve failed")
        n = int(sol.stats["num_steps"])
        require(int(sol.stats["num_accepted_steps"]) == n and int(sol.stats["num_rejected_steps"]) == 0,
                "fixed steps must all be accepted")
        ts = np.asarray(sol.ts)
        require(ts.dtype == dt, f"time dtype {ts.dtype}")
        ts = ts[np.isfinite(ts)].astype(np.float64)
        require(len(ts) == n + 1, f"{len(ts)} saved values for {n} steps")
        require(ts[0] == t0 and ts[-1] == t1, f"grid runs from {ts[0]} to {ts[-1]}")
        if abs(q - round(q)) <= unc:  # dt0 divides the interval, up to rounding
            lo = hi = max(1, round(q))
        require(lo <= n <= hi, f"{n} steps for t0={t0} t1={t1} dt0={h} (expected {lo}..{hi})")
        steps = d * np.diff(ts)
        require(bool(np.all(steps > 0)), "steps not strictly monotone")
        slack = 64 * eps * max(abs(float(t0)), abs(float(t1)), Lr)
        require(bool(np.all(steps <= float(h) + slack)), f"a step is longer than dt0: {steps.max()} > {h}")
        exp = float(t0) + d * float(h) * np.arange(n)
        require(bool(np.all(np.abs(ts[:-1] - exp) <= slack)),
                f"grid deviates by {np.abs(ts[:-1]-exp).max()} from t0 + k*dt0 (n={n})")
        if n > 1:
            nt += 1
    return dict(nontrivial=nt > 0, evals=evals, labels=[case["dtype"]])


@st.composite
def strat_stepto(draw):
    n = draw(st.sampled_from([2, 3, 8, 30]))
    inst = [dict(seed=draw(seeds), t0=draw(frac(-3, 3)), scale=draw(st.sampled_from([1e-3, 1.0, 100.0])),
                 direction=draw(st.sampled_from([1, -1])), spread=draw(st.sampled_from([0.1, 1.0, 3.0])))
            for _ in range(6)]
    return dict(n=n, dtype=draw(st.sampled_from(["f64", "f32"])),
                solver=draw(st.sampled_from(["Euler", "Heun", "Tsit5", "Dopri8"])),
                dense=draw(st.booleans()), inst=inst)


def check_stepto(case):
    dt = np.float64 if case["dtype"] == "f64" else np.float32
    n = case["n"]
    evals = 0
    for ins in case["inst"]:
        r = rng(ins["seed"])
        gaps = 10.0 ** r.uniform(-ins["spread"], 0, n - 1) * ins["scale"]
        ts = (ins["t0"] + ins["direction"] * np.concatenate([[0], np.cumsum(gaps)])).astype(dt)
        if np.min(np.abs(np.diff(ts))) < 200 * np.finfo(dt).eps * np.max(np.abs(ts)):
            continue
        jts = jnp.asarray(ts)
        with sut("solve"):
            sol = dfx.diffeqsolve(
                dfx.ODETerm(vf0), solver(case["solver"]), jts[0], jts[-1], None, jnp.asarray(0.5, dt),
                jnp.asarray(0.1 / ins["scale"], dt), stepsize_controller=dfx.StepTo(ts=jts),
                saveat=dfx.SaveAt(t0=True, steps=True, dense=case["dense"]), max_steps=n - 1,
                throw=False)
        evals += 1
        require(sol.result == dfx.RESULTS.successful, "StepTo solve failed with max_steps=len(ts)-1")
        got = np.asarray(sol.ts)
        require(got.shape == ts.shape and np.array_equal(got, ts), f"visited {got}, asked for {ts}")
        require(int(sol.stats["num_steps"]) == n - 1, "number of steps")
    return dict(nontrivial=evals > 0 and n > 2, evals=evals, labels=[f"n{n}", case["dtype"]])


def strat_inf():
    return st.fixed_dictionaries(dict(
        h=frac(0.01, 0.5), stop=frac(0.3, 3.0), t0=frac(-1, 1), direction=st.sampled_from([1, -1]),
        solver=st.sampled_from(["Euler", "Heun"])))


def stop_after(t, y, args, **kw):
    return jnp.abs(t - args[0]) > args[1]


def vf_inf(t, y, args):
    return -y + args[0]


def check_inf(case):
    """t1 = infinity: steps of dt0 forever, until an event."""
    d, h = case["direction"], case["h"]
    with sut("solve"):
        sol = dfx.diffeqsolve(
            dfx.ODETerm(vf_inf), solver(case["solver"]), F(case["t0"]), F(d * np.inf), F(d * h), F(0.3),
            (F(case["t0"]), F(case["stop"])), saveat=dfx.SaveAt(t0=True, steps=True),
            event=dfx.Event(stop_after), max_steps=512, throw=False)
    require(sol.result == dfx.RESULTS.event_occurred, "did not stop at the event")
    ts = np.asarray(sol.ts)
    ts = ts[np.isfinite(ts)]
    q = case["stop"] / h
    if abs(q - round(q)) < 1e-6:
        return dict(nontrivial=False)
    n = math.floor(q) + 1
    require(len(ts) == n + 1, f"{len(ts)-1} steps, expected {n}")
    close(ts, case["t0"] + d * h * np.arange(n + 1), "grid with infinite t1", 1e-12, 1e-11)
    return dict(nontrivial=True, labels=["inf"])


PARTS = [
    Part("constant", strat_const, check_const, quick=240, thorough=600),
    Part("stepto", strat_stepto, check_stepto, quick=80, thorough=200),
    Part("infinite", strat_inf, check_inf, quick=120, thorough=300),
]
