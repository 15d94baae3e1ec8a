"""C04: PID controller law over generated error histories."""
from ..core import Part
from ..scripted import *  # noqa: F401,F403

N = 96


def two_norm_like(x):
    return sum(jnp.sum(jnp.abs(l)) for l in jtu.tree_leaves(x)) / 2.0


NORMS = {
    "rms": (optx.rms_norm, lambda v: np.sqrt(np.mean(v**2))),
    "max": (optx.max_norm, lambda v: np.max(np.abs(v))),
    "l1half": (two_norm_like, lambda v: np.sum(np.abs(v)) / 2.0),
}


def logu(lo, hi):
    return st.floats(0, 1).map(lambda u: float(f"{lo * (hi / lo) ** u:.6g}"))


@st.composite
def strat(draw):
    inst = []
    for _ in range(draw(st.integers(3, 5))):
        inst.append(dict(
            seed=draw(seeds), direction=draw(st.sampled_from([1, 1, -1])),
            t0=draw(frac(-3, 3)), length=draw(logu(0.01, 50.0)),
            dt0=draw(logu(0.005, 3.0)), rtol=draw(logu(1e-6, 1e-1)),
            atol=draw(logu(1e-8, 1e-1)), target=draw(logu(0.05, 5.0)),
            rough=draw(st.sampled_from([0.3, 1.0, 2.5])),
            specials=draw(st.lists(st.sampled_from([0, 0, 0, 0, 1, 2, 3]), min_size=8, max_size=8)),
            thr=draw(logu(0.01, 0.3)),
            pc=draw(frac(0, 0.7)), ic=draw(frac(0.1, 1.0)), dc=draw(frac(-0.3, 0.3)),
            fmin=draw(frac(0.05, 0.7)), fmax=draw(frac(1.1, 12)), safety=draw(frac(0.5, 0.99)),
            dtmin=draw(logu(0.002, 0.2)), dtmax=draw(logu(0.05, 1.0)),
            eo=draw(frac(0.7, 6.0)),
        ))
    return dict(
        p=draw(st.sampled_from([1, 2, 4])), norm=draw(st.sampled_from(sorted(NORMS))),
        coeffs=draw(st.sampled_from(["default", "pi", "pid"])),
        dtmin=draw(st.sampled_from([None, "force", "error"])), dtmax=draw(st.booleans()),
        lim=draw(st.booleans()), eo=draw(st.integers(0, 3)) == 0,
        tree=draw(st.booleans()), inst=inst)


def check(case):
    labels = [case["norm"], case["coeffs"], f"dtmin={case['dtmin']}"]
    evals = nontriv = 0
    p = case["p"]
    jnorm, nnorm = NORMS[case["norm"]]
    for ins in case["inst"]:
        r = rng(ins["seed"])
        s, L, d = ins["direction"], ins["length"], 3
        T0, T1 = s * ins["t0"], s * ins["t0"] + L  # internal time
        kw, m = {}, dict(pc=0.0, ic=1.0, dc=0.0, fmin=0.2, fmax=10.0, safety=0.9, dtmin=None,
                         dtmax=None, force=True)
        if case["coeffs"] != "default":
            m["pc"], m["ic"] = ins["pc"], ins["ic"]
            kw.update(pcoeff=F(m["pc"]), icoeff=F(m["ic"]))
        if case["coeffs"] == "pid":
            m["dc"] = ins["dc"]
            kw.update(dcoeff=F(m["dc"]))
        if case["lim"]:
            m.update(fmin=ins["fmin"], fmax=ins["fmax"], safety=ins["safety"])
            kw.update(factormin=F(m["fmin"]), factormax=F(m["fmax"]), safety=F(m["safety"]))
        if case["dtmin"]:
            m["dtmin"], m["force"] = ins["dtmin"] * L, case["dtmin"] == "force"
            kw.update(dtmin=F(m["dtmin"]), force_dtmin=m["force"])
        if case["dtmax"]:
            m["dtmax"] = ins["dtmax"] * L
            if m["dtmin"]:
                m["dtmax"] = max(m["dtmax"], 2 * m["dtmin"])
            kw.update(dtmax=F(m["dtmax"]))
        order = float(p)
        if case["eo"]:
            order = ins["eo"]
            kw.update(error_order=F(order))
        model = PidModel(order, ins["rtol"], ins["atol"], nnorm, **m)
        args = dict(
            c=F(r.uniform(-2, 2, d)), w=F(s * r.uniform(0.2, 2) / L * 5), b=F(r.uniform(-1, 1, d)),
            v=F(r.uniform(0.2, 1, d) * r.choice([-1, 1], d)),
            table=F(ins["atol"] * ins["target"] * 10.0 ** r.uniform(-ins["rough"], ins["rough"], 8)
                    * (1 + ins["rtol"] / ins["atol"])),
            special=jnp.asarray(ins["specials"]), lo=F(T0), hi=F(T1), ref=F(0.2 * L),
            thr=F(ins["thr"] * L), p=F(p))
        npa = npt(args)
        # the scripted solver works in internal time: g depends on it through args only
        y0 = g_fn(F(T0), args)
        y0 = to_tree(y0) if case["tree"] else y0
        sc = RecordAdaptive(dfx.PIDController(rtol=F(ins["rtol"]), atol=F(ins["atol"]), norm=jnorm, **kw), N)
        with sut("solve"):
            sol = dfx.diffeqsolve(
                dfx.ODETerm(zero_vf), Scripted(p, N, case["tree"]), F(s * T0), F(s * T1),
                F(s * ins["dt0"] * L), y0, args, stepsize_controller=sc, max_steps=N - 1,
                saveat=dfx.SaveAt(t1=True, controller_state=True), throw=False)
        rows = attempts(sol)
        evals += 1
        tol = 1e-9 * L
        require(len(rows) > 0, "no step attempted")
        require(int(sol.stats["num_steps"]) == len(rows), "num_steps != attempts")
        require(rows[0, 0] == T0, "first step does not start at t0")
        exp1 = min(T0 + model.init_dt(ins["dt0"] * L), T1)
        require(abs(rows[0, 1] - exp1) <= tol, f"first step to {rows[0,1]} expected {exp1}")
        res = sol.result
        for i, (t0, t1, keep, _, _, mj, err) in enumerate(rows):
            err = err / np.sum(np.abs(npa["v"])) * npa["v"]
            if not np.isfinite(err).all():
                err = np.full(d, np.inf)
            gy = lambda t: npa["c"] * np.cos(npa["w"] * t) + npa["b"]  # noqa: E731
            k, dt, failed = model.step(t1 - t0, gy(t0), gy(t1), err)
            if k is None:
                break
            require(bool(keep) == k, f"attempt {i} [{t0},{t1}]: accepted={bool(keep)}, expected {k}")
            require(not mj, "made_jump without jumps")
            if not k:
                nontriv += 1
            if failed:
                require(i == len(rows) - 1 and res == dfx.RESULTS.dt_min_reached,
                        f"dt {dt} below dtmin at attempt {i}/{len(rows)} but result {res._value}")
                break
            if i == len(rows) - 1:
                if k and t1 >= T1:
                    require(t1 == T1 and res == dfx.RESULTS.successful,
                            "reached t1 but not successful")
                else:
                    require(len(rows) == N - 1 and res == dfx.RESULTS.max_steps_reached,
                            f"stopped after {len(rows)} attempts at {t1} of {T1} with {res._value}")
                break
            e0 = t1 if k else t0
            e1 = e0 + dt
            n0, n1 = rows[i + 1, 0], rows[i + 1, 1]
            require(n0 == e0, f"attempt {i+1} starts at {n0}, expected {e0}")
            end = T1 if k else e0 + 0.5 * (T1 - e0)
            if abs(e1 - T1) < 1e-9 * max(1, abs(T1)):
                ok = abs(n1 - e1) < 2e-9 * max(1, abs(T1)) or abs(n1 - end) <= tol
            else:
                e1 = end if e1 > T1 else e1
                ok = abs(n1 - e1) <= 1e-9 * abs(dt) + 1e-14 * abs(T1)
            require(ok, f"attempt {i+1}: [{n0},{n1}] expected end {e1} (previous [{t0},{t1}] keep={k})")
            if getattr(model, "ambig", False):
                break
            if k and not np.isfinite(err).all():
                break  # a non-finite step was forced through at dtmin: all bets are off
        else:
            continue
    return dict(nontrivial=nontriv > 0, evals=evals, labels=labels)


# --------------------------------------------------------------- tolerance proportionality
PARTS = [Part("pid", strat, check, quick=170, thorough=400)]
