"""C06: ClipStepSizeController histories."""
from ..core import Part
from ..scripted import *  # noqa: F401,F403
from .c04 import logu

N = 160
UP = lambda x: np.nextafter(x, np.inf)  # noqa: E731
DN = lambda x: np.nextafter(x, -np.inf)  # noqa: E731


@st.composite
def strat(draw):
    nstep = draw(st.sampled_from([0, 0, 1, 4, 9]))
    njump = draw(st.sampled_from([0, 1, 2, 5]))
    store = draw(st.sampled_from([None, None, 2, 4, 40]))
    nest = draw(st.sampled_from(["one", "one", "pidkw", "step_in_jump", "jump_in_step"]))
    if nstep == 0 and njump == 0 and store is None:
        nstep = 4
    if nest == "pidkw":
        store = None
        if nstep == 0 and njump == 0:
            njump = 2
    inst = []
    kinds = st.sampled_from(["u", "u", "u", "close", "dup", "out", "t0", "t1"])
    for _ in range(draw(st.integers(3, 5))):
        inst.append(dict(
            seed=draw(seeds), direction=draw(st.sampled_from([1, 1, -1])),
            t0=draw(frac(-3, 3)), length=draw(logu(0.05, 20.0)), dt0=draw(logu(0.01, 2.0)),
            target=draw(logu(0.1, 5.0)), rough=draw(st.sampled_from([0.1, 1.0, 2.0])),
            specials=draw(st.lists(st.sampled_from([0, 0, 0, 0, 1, 2, 3]), min_size=8, max_size=8)),
            thr=draw(logu(0.02, 0.3)),
            step=draw(st.lists(st.tuples(kinds, unit), min_size=nstep, max_size=nstep)),
            jump=draw(st.lists(st.tuples(kinds, unit), min_size=njump, max_size=njump)),
            dtmax=draw(logu(0.02, 1.0)),
        ))
    return dict(nstep=nstep, njump=njump, store=store, nest=nest,
                dtmax=draw(st.booleans()), inst=inst)


def mk_times(spec, T0, T1, avoid=()):
    out = []
    L = T1 - T0
    for kind, u in spec:
        if kind == "u":
            v = T0 + L * u
        elif kind == "close":
            v = (out[-1] if out else T0 + 0.5 * L) + 1e-7 * L * (1 + u)
        elif kind == "dup":
            v = out[-1] if out else T0 + L * u
        elif kind == "out":
            v = T0 - L * (0.1 + u) if u < 0.5 else T1 + L * (0.1 + u)
        elif kind == "t0":
            v = T0
        else:
            v = T1
        # keep away from the clipping tolerance at the ends of the interval, and from
        # other special times
        while v not in (T0, T1) and any(abs(v - a) < 1e-8 * L for a in [T0, T1, *avoid]):
            v += 3e-8 * L
        out.append(v)
    return np.array(out)


def check(case):
    evals = nontriv = 0
    labels = [case["nest"], f"store={case['store']}", f"step{case['nstep']}", f"jump{case['njump']}"]
    for ins in case["inst"]:
        r = rng(ins["seed"])
        s, L, d = ins["direction"], ins["length"], 2
        T0 = s * ins["t0"] or 0.00123
        T1 = T0 + L
        step = mk_times(ins["step"], T0, T1)
        jump = mk_times(ins["jump"], T0, T1, [x for x in step])
        rtol, atol = 1e-3, 1e-4
        kw = {}
        dtmax = None
        if case["dtmax"]:
            dtmax = ins["dtmax"] * L
            kw.update(dtmax=F(dtmax))
        model = PidModel(1.0, rtol, atol, lambda v: np.sqrt(np.mean(v**2)), 0.0, 1.0, 0.0, 0.2,
                         10.0, 0.9, None, dtmax, True)
        perm = lambda a: None if len(a) == 0 else F(s * a[r.permutation(len(a))])  # noqa: E731
        jstep, jjump = perm(step), perm(jump)
        with sut("constructing the controller"):
            if case["nest"] == "pidkw":
                c = dfx.PIDController(rtol=F(rtol), atol=F(atol), step_ts=jstep, jump_ts=jjump, **kw)
            else:
                c = dfx.PIDController(rtol=F(rtol), atol=F(atol), **kw)
                if case["nest"] == "one":
                    c = dfx.ClipStepSizeController(c, step_ts=jstep, jump_ts=jjump,
                                                   store_rejected_steps=case["store"])
                elif case["nest"] == "step_in_jump":
                    c = dfx.ClipStepSizeController(c, step_ts=jstep)
                    c = dfx.ClipStepSizeController(c, jump_ts=jjump, store_rejected_steps=case["store"])
                else:
                    c = dfx.ClipStepSizeController(c, jump_ts=jjump)
                    c = dfx.ClipStepSizeController(c, step_ts=jstep, store_rejected_steps=case["store"])
        args = dict(
            c=F(r.uniform(-2, 2, d)), w=F(r.uniform(0.2, 2) / L * 5), b=F(r.uniform(-1, 1, d)),
            v=F(r.uniform(0.2, 1, d)), table=F(3e-4 * ins["target"] * 10.0 ** r.uniform(-ins["rough"], ins["rough"], 8)),
            special=jnp.asarray(ins["specials"]), lo=F(T0), hi=F(T1), ref=F(0.15 * L),
            thr=F(ins["thr"] * L), p=F(1))
        npa = npt(args)
        with sut("solve"):
            sol = dfx.diffeqsolve(
                dfx.ODETerm(zero_vf), Scripted(1, N), F(s * T0), F(s * T1), F(s * ins["dt0"] * L),
                g_fn(F(T0), args), args, stepsize_controller=RecordAdaptive(c, N), max_steps=N - 1,
                saveat=dfx.SaveAt(t1=True, controller_state=True, solver_state=True), throw=False)
        evals += 1
        rows = attempts(sol)
        nacc, abuf = sol.solver_state
        acc = np.asarray(abuf)[: int(nacc)]
        res = sol.result
        keep = rows[:, 2] == 1
        require(len(acc) == keep.sum(), "accepted steps differ between solver and controller")
        require(np.array_equal(acc[:, :2], rows[keep][:, :2]), "accepted steps differ from attempts")
        done = res == dfx.RESULTS.successful
        require(done or len(rows) == N - 1 or
                (case["store"] is not None and res == dfx.RESULTS.max_steps_rejected),
                f"stopped after {len(rows)} attempts with {res._value}")
        inner_jumps = sorted(set(j for j in jump if T0 < j < T1))
        # --- no attempt may touch a jump
        for t0, t1 in rows[:, :2]:
            require(t1 > t0, f"attempted step [{t0},{t1}] is not forward")
            for j in inner_jumps:
                require(not (t0 <= j <= t1), f"attempted step [{t0!r},{t1!r}] contains the jump {j!r}")
        if done:
            require(acc[-1, 1] == T1 or (T1 in jump and acc[-1, 1] == DN(T1)), "successful but did not end at t1")
            ends = set(acc[:, 1])
            for q in step:
                if T0 < q < T1:
                    require(q in ends, f"step_ts {q!r} was not stepped to")
            for j in inner_jumps:
                require(DN(j) in ends, f"no step ends just before the jump {j!r}")
        # --- contiguity and made_jump
        for i in range(len(acc)):
            t0, t1, mj = acc[i]
            if i == 0:
                ok = t0 == T0 or (T0 in jump and t0 == UP(T0))
                require(ok and not mj, f"first accepted step starts at {t0!r}, made_jump={mj}")
                continue
            prev = acc[i - 1, 1]
            if UP(prev) in inner_jumps:
                require(t0 == UP(UP(prev)), f"after the jump {UP(prev)!r} resumed at {t0!r}")
                require(mj == 1, "solver was not told about the jump")
            else:
                require(t0 == prev, f"gap between steps: {prev!r} -> {t0!r}")
                require(mj == 0, f"solver told about a jump at {t0!r} where there is none")
        # --- rejected steps are revisited
        if case["store"] is not None:
            stack = []
            for i, row in enumerate(rows):
                if stack and row[1] == stack[-1]:
                    stack.pop()
                if stack:
                    require(row[1] <= stack[-1], "stepped over a rejected time")
                if not row[2]:
                    stack.append(row[1])
                    nontriv += 1
                if len(stack) > case["store"]:
                    require(i == len(rows) - 1 and res == dfx.RESULTS.max_steps_rejected,
                            f"buffer of {case['store']} overflowed but result {res._value}")
            if len(stack) <= case["store"]:
                require(res != dfx.RESULTS.max_steps_rejected, "spurious max_steps_rejected")
            if done:
                require(not stack, f"rejected times never stepped to: {stack}")
        # --- otherwise the steps of the wrapped controller
        stack = []
        e = T0 + model.init_dt(ins["dt0"] * L)
        clipped = False
        for i, (t0, t1, kp, _, _, mj, err) in enumerate(rows):
            if i == 0:
                exp, alt = e, None
            pts = [q for q in step if q > t0] + [DN(j) for j in jump if j > t0] + [T1]
            if case["store"] is not None and stack:
                pts.append(stack[-1])
            lim = min(pts)
            if lim < exp:
                clipped = True
            want = min(exp, lim)
            if i > 0 and not rows[i - 1, 2] and want > T1 - 1e-9 * max(1, abs(T1)):
                want = t0 + 0.5 * (T1 - t0)  # after a rejection: half of what remains
            tolw = 1e-9 * L + 1e-12 * abs(T1)
            require(abs(t1 - want) <= tolw,
                    f"attempt {i}: [{t0},{t1}] but the wrapped controller proposes {exp}, limits {lim}")
            if stack and t1 == stack[-1]:
                stack.pop()
            if not kp:
                stack.append(t1)
            ev = err / np.sum(np.abs(npa["v"])) * npa["v"]
            if not np.isfinite(ev).all():
                ev = np.full(d, np.inf)
            gy = lambda t: npa["c"] * np.cos(npa["w"] * t) + npa["b"]  # noqa: E731
            k, dt, _ = model.step(t1 - t0, gy(t0), gy(t1), ev)
            if k is None:
                break
            require(bool(kp) == k, f"attempt {i}: accepted={bool(kp)}, expected {k}")
            exp = (t1 if k else t0) + dt
        nontriv += clipped
    return dict(nontrivial=nontriv > 0, evals=evals, labels=labels)


PARTS = [Part("clip", strat, check, quick=170, thorough=400)]
