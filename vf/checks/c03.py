"""C03: dense output consistency."""
from ..core import Part
from ..util import *  # noqa: F401,F403

MAXS = 64


@st.composite
def strat(draw):
    name = draw(weighted(SOLVER_W))
    ctrl = draw(st.sampled_from(["const", "stepto"] if name in NOERR else ["const", "pid", "pid", "jump"]))
    inst = [dict(seed=draw(seeds), t0=draw(frac(-2, 2)), length=draw(frac(0.2, 4.0)),
                 n=draw(st.integers(1, 9)), direction=draw(st.sampled_from([1, 1, -1])),
                 us=draw(st.lists(unit, min_size=6, max_size=6)))
            for _ in range(draw(st.integers(2, 3)))]
    return dict(solver=name, ctrl=ctrl, tree=draw(st.booleans()), inst=inst)


@eqx.filter_jit
def ev(sol, ts, left):
    return jax.vmap(lambda t: sol.evaluate(t, left=left))(ts)


@eqx.filter_jit
def evd(sol, ts, left):
    return jax.vmap(lambda t: sol.derivative(t, left=left))(ts)


@eqx.filter_jit
def evi(sol, a, b):
    return jax.vmap(lambda x, y: sol.evaluate(x, y))(a, b)


def flat(tree):
    ls = [np.asarray(x) for x in jtu.tree_leaves(tree)]
    return np.concatenate([x.reshape(x.shape[0], -1) for x in ls], axis=1)


def setup(case, ins):
    name, tree = case["solver"], case["tree"]
    d = ins["direction"]
    t0 = ins["t0"]
    t1 = t0 + d * ins["length"]
    dt0 = F(d * ins["length"] / (ins["n"] - 0.4))
    if case["ctrl"] == "const":
        sc = dfx.ConstantStepSize()
    elif case["ctrl"] == "stepto":
        g = np.concatenate([[0], np.cumsum(rng(ins["seed"] + 1).uniform(0.2, 1, 5))])
        ts = t0 + d * ins["length"] * g / g[-1]
        ts[-1] = t1
        sc, dt0 = dfx.StepTo(ts=F(ts)), None
    else:
        sc = pid(1e-3, 1e-4)
        if case["ctrl"] == "jump":
            sc = dfx.ClipStepSizeController(sc, jump_ts=F(t0 + (t1 - t0) * rng(ins["seed"]).uniform(0.1, 0.9, 2)))
    y0 = mk_y0(ins["seed"], 3)
    return t0, t1, dt0, sc, (to_tree(y0) if tree else y0), mk_args(ins["seed"], 3)


def check(case):
    name, tree = case["solver"], case["tree"]
    s, terms = solver(name), terms_for(name, tree)
    evals = nt = 0
    for ins in case["inst"]:
        d = ins["direction"]
        t0, t1, dt0, sc, y0, args = setup(case, ins)
        with sut("solve with dense output"):
            sol = dfx.diffeqsolve(terms, s, F(t0), F(t1), dt0, y0, args, stepsize_controller=sc,
                                  saveat=dfx.SaveAt(t0=True, steps=True, dense=True), max_steps=MAXS,
                                  throw=False)
        if sol.result != dfx.RESULTS.successful:
            continue
        na = int(sol.stats["num_accepted_steps"])
        bts = np.asarray(sol.ts)[: na + 1]
        bys = flat(jtu.tree_map(lambda x: np.asarray(x)[: na + 1], sol.ys))
        evals += 1
        nt += na >= 2
        scale = 1.0 + np.abs(bys).max()
        pad = np.concatenate([bts, np.full(MAXS + 1 - len(bts), t0)])
        for left in (True, False):
            with sut("evaluate at the steps"):
                v = flat(ev(sol, F(pad), left))[: na + 1]
            close(v, bys, f"dense output at the step times (left={left})", 1e-9, 1e-9 * scale)
        # --- random times against SaveAt(ts)
        us = np.array(ins["us"])
        rts = t0 + (t1 - t0) * us
        rts[0] = bts[len(bts) // 2]
        rts = np.clip(rts, min(t0, t1), max(t0, t1))
        rts = np.sort(rts)[::d]
        with sut("solve with ts"):
            sol2 = dfx.diffeqsolve(terms, s, F(t0), F(t1), dt0, y0, args, stepsize_controller=sc,
                                   saveat=dfx.SaveAt(ts=F(rts)), max_steps=MAXS, throw=False)
        with sut("evaluate"):
            v = ev(sol, F(rts), True)
        same_structure(v, y0, "dense output")
        close(v, sol2.ys, "dense output vs SaveAt(ts)", 1e-9, 1e-9 * scale)
        v = flat(v)
        with sut("single evaluate"):
            one = sol.evaluate(F(rts[3]))
        close(flat(jtu.tree_map(lambda x: np.asarray(x)[None], one))[0], v[3], "single vs batched evaluate", 1e-9, 1e-9)
        # --- increments
        with sut("evaluate(a, b)"):
            inc = evi(sol, F(rts), F(rts[::-1].copy()))
        same_structure(inc, y0, "increment")
        close(flat(inc), v[::-1] - v, "evaluate(a,b) vs evaluate(b)-evaluate(a)", 1e-8, 1e-8 * scale)
        # --- derivative by finite differences, strictly inside steps
        k = np.searchsorted(d * bts, d * rts, side="left")
        k = np.clip(k, 1, na)
        h = np.abs(bts[k] - bts[k - 1])
        frac_in = np.clip(np.abs(rts - bts[k - 1]) / h, 0.05, 0.95)
        pts = bts[k - 1] + d * frac_in * h
        eps = 1e-4 * h
        with sut("derivative"):
            der = evd(sol, F(pts), True)
            der2 = evd(sol, F(pts), False)
        same_structure(der, y0, "derivative")
        close(der, der2, "left and right derivative inside a step", 1e-9, 1e-9)
        der = flat(der)
        fd = lambda e: (flat(ev(sol, F(pts + e), True)) - flat(ev(sol, F(pts - e), True))) / (2 * e)[:, None]  # noqa: E731
        rich = (4 * fd(eps) - fd(2 * eps)) / 3
        ok_h = h > 1e-7
        dscale = 1 + np.abs(rich[ok_h]).max() if ok_h.any() else 1
        tol = 1e-6 * dscale + (1e-11 * scale / eps)[:, None]
        require(bool(np.all((np.abs(der - rich) <= tol)[ok_h])),
                lambda: f"derivative differs from finite differences by {np.abs(der-rich)[ok_h].max():.3e}")
        # --- continuity across steps; one-sided derivatives there
        if na >= 2:
            kn = bts[1:-1]
            hm = np.minimum(np.abs(np.diff(bts))[:-1], np.abs(np.diff(bts))[1:])
            e = 1e-7 * hm
            padn = lambda a: F(np.concatenate([a, np.full(MAXS + 1 - len(a), a[0])]))  # noqa: E731
            m = len(kn)
            lo = flat(ev(sol, padn(kn - e), True))[:m]
            hi = flat(ev(sol, padn(kn + e), True))[:m]
            speed = 1 + np.abs(bys).max() / hm.min()
            require(bool(np.all(np.abs(lo - hi) <= 1e-6 * scale + 1e-5 * (e * speed)[:, None])),
                    lambda: f"dense output jumps by {np.abs(lo-hi).max()} at a step")
            if d > 0 and hm.min() > 1e-5:
                dl = flat(evd(sol, padn(kn), True))[:m]
                dr = flat(evd(sol, padn(kn), False))[:m]
                ln = flat(evd(sol, padn(kn - e), True))[:m]
                rn = flat(evd(sol, padn(kn + e), True))[:m]
                ds = 1 + np.abs(ln).max()
                close(dl, ln, "left derivative at a step", 1e-4, 1e-4 * ds)
                close(dr, rn, "right derivative at a step", 1e-4, 1e-4 * ds)
        # --- outside
        L = abs(t1 - t0)
        out = np.array([t0 - d * 1e-6 * L, t0 - d * L, t1 + d * 1e-6 * L, t1 + d * 5 * L, np.nan, t1 + d * 1e5])
        for fn in ((ev,) if name in LININTERP else (ev, evd)):
            with sut("evaluate outside"):
                o = flat(fn(sol, F(out), True))
            require(bool(np.all(np.isnan(o))), f"evaluation outside [t0,t1] gave {o}")
        # --- ends
        close(float(sol.interpolation.t0), t0, "interpolation.t0", 0, 1e-12)
        close(float(sol.interpolation.t1), t1, "interpolation.t1", 0, 1e-12)
    return dict(nontrivial=nt > 0, evals=evals, labels=[name, case["ctrl"], "tree" if tree else "flat"])


# -------------------------------------------------- the local interpolations on their own
def strat_local():
    return st.fixed_dictionaries(dict(
        seed=seeds, kind=st.sampled_from(["linear", "hermite", "hermite_k"]), tree=st.booleans(),
        t0=frac(-3, 3), h=st.one_of(frac(0.01, 5), frac(-5, -0.01)), us=st.lists(frac(-0.5, 1.5), min_size=5, max_size=5)))


def check_local(case):
    r = rng(case["seed"])
    t0, h = case["t0"], case["h"]
    t1 = t0 + h
    mk = lambda: F(r.uniform(-2, 2, 3))  # noqa: E731
    w = to_tree if case["tree"] else (lambda x: x)
    y0, y1, k0, k1 = mk(), mk(), mk(), mk()
    with sut("construct"):
        if case["kind"] == "linear":
            interp = dfx.LocalLinearInterpolation(t0=F(t0), t1=F(t1), y0=w(y0), y1=w(y1))
        elif case["kind"] == "hermite":
            interp = dfx.ThirdOrderHermitePolynomialInterpolation(t0=F(t0), t1=F(t1), y0=w(y0), y1=w(y1), k0=w(k0), k1=w(k1))
        else:
            k = jnp.stack([k0, mk(), mk(), k1])
            interp = dfx.ThirdOrderHermitePolynomialInterpolation.from_k(t0=F(t0), t1=F(t1), y0=w(y0), y1=w(y1), k=w(k))
    y0, y1, k0, k1 = map(np.asarray, (y0, y1, k0, k1))

    def model(u):
        if case["kind"] == "linear":
            return y0 + u * (y1 - y0), (y1 - y0) / h
        h00, h10, h01, h11 = 2*u**3-3*u**2+1, u**3-2*u**2+u, -2*u**3+3*u**2, u**3-u**2
        v = h00 * y0 + h10 * k0 + h01 * y1 + h11 * k1
        dv = (6*u**2-6*u) * y0 + (3*u**2-4*u+1) * k0 + (-6*u**2+6*u) * y1 + (3*u**2-2*u) * k1
        return v, dv / h

    fl = lambda tr: np.concatenate([np.ravel(x) for x in jtu.tree_leaves(tr)])  # noqa: E731
    for u in [0.0, 1.0, *case["us"]]:
        t = t0 + u * h
        u = (t - t0) / (t1 - t0)
        v, dv = model(u)
        with sut("evaluate"):
            a, b = interp.evaluate(F(t)), interp.derivative(F(t))
            c = interp.evaluate(F(t0 + 0.3 * h), F(t))
        same_structure(a, w(jnp.zeros(3)), "evaluate")
        same_structure(c, w(jnp.zeros(3)), "increment")
        close(fl(a), v, f"{case['kind']} evaluate", 1e-9, 1e-9)
        close(fl(b), dv, f"{case['kind']} derivative", 1e-9, 1e-8 * (1 + 1 / abs(h)))
        close(fl(c), v - model(0.3)[0], f"{case['kind']} increment", 1e-8, 1e-8)
    return dict(nontrivial=True, evals=7, labels=[case["kind"]])


# -------------------------------------------------- t0 == t1
def strat_trivial():
    return st.fixed_dictionaries(dict(seed=seeds, t0=frac(-2, 2), solver=st.sampled_from(["Euler", "Tsit5", "Kvaerno3"]),
                                      tree=st.booleans(), off=frac(0.001, 2)))


def check_trivial(case):
    y0 = mk_y0(case["seed"], 3)
    y0 = to_tree(y0) if case["tree"] else y0
    sc = dfx.ConstantStepSize() if case["solver"] == "Euler" else pid()
    with sut("solve over an empty interval"):
        sol = dfx.diffeqsolve(terms_for(case["solver"], case["tree"]), solver(case["solver"]), F(case["t0"]),
                              F(case["t0"]), F(0.1), y0, mk_args(case["seed"], 3), stepsize_controller=sc,
                              saveat=dfx.SaveAt(dense=True), max_steps=8)
        v = sol.evaluate(F(case["t0"]))
        o = [sol.evaluate(F(case["t0"] + e)) for e in (case["off"], -case["off"])]
    close(v, y0, "evaluate at t0 == t1", 0, 0)
    for q in o:
        require(all(np.all(np.isnan(x)) for x in jtu.tree_leaves(npt(q))), "evaluation off an empty interval is finite")
    return dict(nontrivial=True, labels=["trivial"])


PARTS = [
    Part("dense", strat, check, quick=90, thorough=250),
    Part("local", strat_local, check_local, quick=160, thorough=400),
    Part("trivial", strat_trivial, check_trivial, quick=24, thorough=60),
]
