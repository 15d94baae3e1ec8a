"""C07: tiling, statistics, max_steps accounting."""
from ..core import Part
from ..scripted import *  # noqa: F401,F403

MAXS = 80


@st.composite
def strat(draw):
    name = draw(weighted({**SOLVER_W, "Half:Heun": 1, "Half:Euler": 1}))
    ctrl = draw(st.sampled_from(
        ["const", "stepto"] if name in NOERR else ["const", "pid", "pid", "clip"]))
    inst = [dict(seed=draw(seeds), t0=draw(frac(-2, 2)), length=draw(frac(0.3, 4.0)),
                 n=draw(st.integers(1, 20)), direction=draw(st.sampled_from([1, 1, -1])),
                 tol=draw(st.sampled_from([1e-2, 1e-3, 1e-4, 1e-5])))
            for _ in range(draw(st.integers(3, 5)))]
    return dict(solver=name, ctrl=ctrl, tree=draw(st.booleans()), d=2,
                pick=draw(st.tuples(st.integers(0, 4), st.sampled_from([-1, 0, 0, 1]))),
                small=draw(st.integers(1, 6)), none=draw(st.booleans()), dense=draw(st.booleans()),
                inst=inst)


def check(case):
    name, tree = case["solver"], case["tree"]
    s, terms = solver(name), terms_for(name, tree)
    runs = []

    def go(ins, max_steps, saveat, rec):
        r = rng(ins["seed"] + 3)
        sgn, t0 = ins["direction"], ins["t0"]
        t1 = t0 + sgn * ins["length"]
        dt0 = F(sgn * ins["length"] / (ins["n"] - 0.3))
        if case["ctrl"] == "const":
            sc = dfx.ConstantStepSize()
        elif case["ctrl"] == "stepto":
            g = np.concatenate([[0], np.cumsum(r.uniform(0.2, 1, 9))])
            ts = t0 + sgn * ins["length"] * g / g[-1]
            ts[-1] = t1
            sc, dt0 = dfx.StepTo(ts=F(ts)), None
        else:
            sc = pid(ins["tol"], ins["tol"] * 0.1)
            if case["ctrl"] == "clip":
                sc = dfx.ClipStepSizeController(
                    sc, step_ts=F(t0 + (t1 - t0) * r.uniform(0, 1, 3)), store_rejected_steps=30)
        if rec and case["ctrl"] != "stepto":  # StepTo is special-cased by type
            sc = record(sc, MAXS + 1)
        y0 = mk_y0(ins["seed"], 2)
        with sut("solve"):
            return dfx.diffeqsolve(
                terms, s, F(t0), F(t1), dt0, to_tree(y0) if tree else y0,
                mk_args(ins["seed"], 2), stepsize_controller=sc, max_steps=max_steps,
                saveat=saveat, throw=False), t0, t1

    evals = nt = 0
    for ins in case["inst"]:
        rec = case["ctrl"] != "stepto"
        sol, t0, t1 = go(ins, MAXS, dfx.SaveAt(t0=True, steps=True, controller_state=True), True)
        N = int(sol.stats["num_steps"])
        na, nr = int(sol.stats["num_accepted_steps"]), int(sol.stats["num_rejected_steps"])
        require(na + nr == N, f"accepted {na} + rejected {nr} != steps {N}")
        require(sol.stats["max_steps"] == MAXS, "stats max_steps")
        ts = np.asarray(sol.ts)
        d = ins["direction"]
        require(finite_count(ts) == na + 1, "saved steps != accepted steps + 1")
        fts = ts[: na + 1]
        require(bool(np.all(d * np.diff(fts) > 0)), "accepted step times are not strictly monotone")
        require(fts[0] == t0, "does not start at t0")
        if rec:
            rows = attempts(sol)
            require(len(rows) == N, f"{len(rows)} steps attempted but num_steps={N}")
            acc = rows[rows[:, 2] == 1]
            require(len(acc) == na, f"{len(acc)} accepted but num_accepted_steps={na}")
            require(bool(np.all(acc[1:, 0] == acc[:-1, 1])), "accepted steps do not tile")
            require(np.array_equal(d * acc[:, 1], fts[1:]), "saved step times are not the step ends")
            require(bool(np.all(rows[:, 1] > rows[:, 0])), "an attempted step is not forward")
            for a, b in zip(rows[:-1], rows[1:]):
                require(b[0] == (a[1] if a[2] else a[0]), "attempt does not start at the current time")
        ok = sol.result == dfx.RESULTS.successful
        if not ok:
            require(sol.result == dfx.RESULTS.max_steps_reached and N == MAXS,
                    f"result {sol.result._value} after {N} of {MAXS} steps")
        else:
            require(fts[-1] == t1, f"successful but last time is {fts[-1]!r}, not t1={t1!r}")
        runs.append((N, ok, fts, jtu.tree_map(lambda x: np.asarray(x)[: na + 1], sol.ys), t0, t1, sol))
        nt += N >= 2
    Ns = [r[0] for r in runs]
    i, off = case["pick"]
    ms = sorted({min(MAXS, max(1, Ns[i % len(Ns)] + off)), case["small"]})
    for m in ms:
        for ins, (N, ok, fts, ys, t0, t1, base) in zip(case["inst"], runs):
            sol, _, _ = go(ins, m, dfx.SaveAt(t0=True, steps=True, dense=case["dense"]), False)
            evals += 1
            good = ok and N <= m
            ns = int(sol.stats["num_steps"])
            require(ns == min(N, m), f"{ns} steps with max_steps={m}; unlimited takes {N}")
            na = int(sol.stats["num_accepted_steps"])
            gts = np.asarray(sol.ts)
            require(finite_count(gts) == na + 1, "saved steps != accepted steps + 1")
            close(gts[: na + 1], fts[: na + 1], f"step times under max_steps={m}", 1e-9, 1e-9)
            close(jtu.tree_map(lambda x: np.asarray(x)[: na + 1], sol.ys),
                  jtu.tree_map(lambda x: x[: na + 1], ys), f"values under max_steps={m}", 1e-7, 1e-8)
            if good:
                require(sol.result == dfx.RESULTS.successful,
                        f"needs {N} steps but max_steps={m} gives {sol.result._value}")
                require(na + 1 == len(fts), "fewer accepted steps")
            else:
                require(sol.result == dfx.RESULTS.max_steps_reached,
                        f"needs {N} steps, max_steps={m}, result {sol.result._value}")
                if N > m:
                    require(gts[na] != t1, "t1 claimed although max_steps was reached")
    if case["none"]:
        for ins, (N, ok, fts, ys, t0, t1, base) in zip(case["inst"], runs):
            sol, _, _ = go(ins, None, dfx.SaveAt(t1=True), False)
            evals += 1
            if ok:
                require(int(sol.stats["num_steps"]) == N, "num_steps differs with max_steps=None")
                close(jtu.tree_map(lambda x: np.asarray(x)[0], sol.ys),
                      jtu.tree_map(lambda x: x[-1], ys), "y(t1) with max_steps=None", 1e-7, 1e-8)
            require(sol.result == dfx.RESULTS.successful, "unbounded solve not successful")
            require(float(sol.ts[0]) == t1, "t1")
    return dict(nontrivial=nt > 0, evals=evals, labels=[name, case["ctrl"]])


PARTS = [Part("accounting", strat, check, quick=72, thorough=250)]
