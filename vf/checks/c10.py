"""C10: Brownian paths are one consistent function of time."""
from ..core import Part
from ..util import *  # noqa: F401,F403

LEVY = {"W": dfx.BrownianIncrement, "H": dfx.SpaceTimeLevyArea, "K": dfx.SpaceTimeTimeLevyArea}
SDS = jax.ShapeDtypeStruct
SHAPES = {
    "scalar": (), "vec": (3,), "mat": (2, 2),
    "tree": {"a": SDS((), jnp.float64), "b": (SDS((2,), jnp.float64),)},
    "mixed": (SDS((2,), jnp.float64), SDS((3,), jnp.float32)),
}


@ft.lru_cache(None)
def fns(shape, levy):
    def mk(T0, T1, tol, key):
        return dfx.VirtualBrownianTree(T0, T1, tol, SHAPES[shape], key, LEVY[levy])

    @jax.jit
    def many(T0, T1, tol, key, a, b):
        bm = mk(T0, T1, tol, key)
        return jax.vmap(lambda x, y: bm.evaluate(x, y, use_levy=True))(a, b)

    @jax.jit
    def points(T0, T1, tol, key, a):
        bm = mk(T0, T1, tol, key)
        return jax.vmap(lambda x: bm.evaluate(x))(a)

    @jax.jit
    def pointsL(T0, T1, tol, key, a):
        bm = mk(T0, T1, tol, key)
        return jax.vmap(lambda x: bm.evaluate(x, use_levy=True))(a)

    @jax.jit
    def one(T0, T1, tol, key, a, b):
        bm = mk(T0, T1, tol, key)
        return bm.evaluate(a, b, use_levy=True), bm.evaluate(a, b)

    return many, points, pointsL, one


def cols(tree, n):
    return np.concatenate([np.asarray(x, dtype=np.float64).reshape(n, -1) for x in jtu.tree_leaves(tree)], axis=1)


def widths(shape):
    s = SHAPES[shape]
    leaves = [SDS(s, jnp.float64)] if isinstance(s, tuple) and all(isinstance(i, int) for i in s) else jtu.tree_leaves(s)
    return [int(np.prod(l.shape)) for l in leaves]


NQ = 9
# (every combination costs a compilation, so not the full product)
COMBOS = [("scalar", "W"), ("tree", "W"), ("mixed", "W"), ("mat", "W"), ("scalar", "H"), ("tree", "H"), ("vec", "K"), ("tree", "K")]


@st.composite
def strat(draw):
    inst = [dict(seed=draw(seeds), T0=draw(frac(-3, 3)), L=draw(st.sampled_from([1.0, 0.37, 5.0, 2.0])),
                 tol=draw(st.sampled_from([0.5, 0.1, 0.01, 1e-3, 2.0**-6, 3.0])),
                 pts=draw(st.lists(st.tuples(st.sampled_from(["u", "u", "dy", "dy+", "dy-", "near", "end"]), unit,
                                             st.integers(1, 7)), min_size=NQ, max_size=NQ)))
            for _ in range(8)]
    shape, levy = draw(st.sampled_from(COMBOS))
    return dict(shape=shape, levy=levy, inst=inst)


def mkpts(ins):
    out = []
    T0, L = ins["T0"], ins["L"]
    for kind, u, k in ins["pts"]:
        dy = np.floor(u * 2**k) / 2**k
        v = {"u": u, "dy": dy, "dy+": dy + 1e-9, "dy-": dy - 1e-9, "near": (out[-1] if out else 0.5) + 1e-7,
             "end": float(k % 2)}[kind]
        out.append(min(max(v, 0.0), 1.0))
    return np.clip(T0 + L * np.array(out), T0, T0 + L)


def check(case):
    sh, lv = case["shape"], case["levy"]
    many, points, pointsL, one = fns(sh, lv)
    tol32 = 2e-3 if sh == "mixed" else 0.0
    nt = 0
    for ins in case["inst"]:
        T0, L = ins["T0"], ins["L"]
        a = (F(T0), F(T0 + L), F(ins["tol"]), jr.PRNGKey(ins["seed"]))
        pts = mkpts(ins)
        t = np.sort(pts)
        T1 = T0 + L
        sq = np.sqrt(L)
        atol = 1e-7 * sq + tol32 * sq
        s_, t_, u_ = t[:-2], t[1:-1], t[2:]
        n = len(s_)
        with sut("evaluate"):
            A = many(*a, F(s_), F(t_))
            B = many(*a, F(t_), F(u_))
            C = many(*a, F(s_), F(u_))
            A2 = many(*a, F(s_), F(t_))
            W0 = points(*a, F(pts))
            WL = pointsL(*a, F(pts))
            R = many(*a, F(t_), F(s_)).W
            z = points(*a, F(np.full(len(pts), T0)))
            o, oW = one(*a, F(s_[2]), F(t_[2])) if sh == "scalar" else (None, None)
        for q in (A, B, C):
            require(isinstance(q, LEVY[lv]), f"returned {type(q)}")
        close(A, A2, "repeated evaluation", 0, 0)
        if o is not None:
            close(o.W, oW, "with and without Levy area", 1e-12, 1e-12)
            h2 = float(t_[2] - s_[2])
            A_2 = jtu.tree_map(lambda x: np.asarray(x)[2], A)
            for k_, nm in enumerate(["W", "H", "K"]):  # H and K are divided by h, h^2
                if hasattr(o, nm):
                    wt = lambda q: jtu.tree_map(lambda x: np.asarray(x, np.float64) * h2**k_, getattr(q, nm))  # noqa: E731
                    close(wt(A_2), wt(o), f"single vs batched evaluation of {nm}", 1e-6, atol)
        require(np.all(cols(z, len(pts)) == 0), "W(t0) is not zero")
        close(WL.W, W0, "evaluate(t)", 1e-12, 1e-12)
        w = np.concatenate([np.full(k, 1.0) for k in widths(sh)])
        wA, wB, wC = (cols(q.W, n) for q in (A, B, C))
        at = lambda x: cols(points(*a, F(x)), len(x))  # noqa: E731
        padn = lambda x: np.concatenate([x, np.full(len(pts) - len(x), T0)])  # noqa: E731
        Ws, Wt = at(padn(s_))[:n], at(padn(t_))[:n]
        close(wA, Wt - Ws, "increment vs difference of values", 1e-7, atol)
        close(wC, wA + wB, "W over adjacent intervals", 1e-7, atol)
        close(cols(R, n), -wA, "swapped end points", 1e-7, atol)
        for q, lo, hi in ((A, s_, t_), (B, t_, u_), (C, s_, u_)):
            dts = jtu.tree_leaves(q.dt)
            for dt in dts:
                close(np.asarray(dt, np.float64), hi - lo, "dt", 1e-5 if tol32 else 1e-9, (1e-6 if tol32 else 1e-12) * (1 + L))
        if lv in "HK":
            h = lambda lo, hi: (hi - lo)[:, None]  # noqa: E731
            I = lambda q, lo, hi: h(lo, hi) * (cols(q.W, n) / 2 + cols(q.H, n))  # noqa: E731,E741
            iA, iB, iC = I(A, s_, t_), I(B, t_, u_), I(C, s_, u_)
            tol = 1e-7 * L * sq + tol32 * L * sq
            close(iC, iA + iB + h(t_, u_) * wA, "time integral (H) over adjacent intervals", 1e-7, tol)
            # over [t0, t]
            iL = (pts - T0)[:, None] * (cols(WL.W, len(pts)) / 2 + cols(WL.H, len(pts)))
            full = many(*a, F(np.full(n, T0)), F(pts[:n]))
            close(h(np.full(n, T0), pts[:n]) * (cols(full.W, n) / 2 + cols(full.H, n)), iL[:n], "evaluate(t) vs evaluate(t0,t): H", 1e-7, tol)
        if lv == "K":
            M = lambda q, lo, hi: h(lo, hi) ** 2 * (cols(q.H, n) / 2 + cols(q.W, n) / 3 - cols(q.K, n))  # noqa: E731
            mA, mB, mC = M(A, s_, t_), M(B, t_, u_), M(C, s_, u_)
            exp = mA + mB + wA * (h(s_, u_) ** 2 - h(s_, t_) ** 2) / 2 + h(s_, t_) * iB
            close(mC, exp, "second time integral (K) over adjacent intervals", 1e-7, (1e-7 + tol32) * L**2 * sq)
        # continuity, in particular over dyadic points
        e = 1e-10 * L
        with sut("evaluate"):
            jump = cols(many(*a, F(np.clip(t_ - e, T0, T1)), F(np.clip(t_ + e, T0, T1))).W, n)
        if not tol32:
            require(np.all(np.abs(jump) < 3e-4 * sq), lambda: f"path jumps by {np.abs(jump).max()} (t={t_[np.argmax(np.abs(jump).max(1))]})")
        # components, leaves and keys are driven differently
        big = (u_ - s_) > 0.05 * L
        if big.any():
            v = wC[np.argmax(big)]
            require(len(np.unique(np.round(v, 12))) == len(v), f"components share their noise: {v}")
            b2 = (*a[:3], jr.PRNGKey(ins["seed"] + 1))
            v2 = cols(many(*b2, F(s_), F(u_)).W, n)[np.argmax(big)]
            require(not np.any(np.isclose(v, v2, rtol=1e-9, atol=0)), "different keys give the same noise")
            nt += 1
        # coarse dyadic values do not depend on the tolerance
        if not tol32:
            k = np.arange(NQ) % 5
            dy = F(T0 + L * k / 4)
            small = (a[0], a[1], F(min(ins["tol"], 0.2 * L)), a[3])
            small2 = (a[0], a[1], F(0.003 * L), a[3])
            close(points(*small, dy), points(*small2, dy), "dyadic values under different tolerances", 1e-6, 2e-7 * sq)
    return dict(nontrivial=nt > 0, evals=len(case["inst"]), labels=[sh, lv])


# ------------------------------------------------------------------ UnsafeBrownianPath
def strat_u():
    return st.fixed_dictionaries(dict(
        seed=seeds, shape=st.sampled_from(sorted(SHAPES)), levy=st.sampled_from("WHK"), t0=frac(-3, 3),
        hs=st.lists(frac(0.001, 3), min_size=4, max_size=4), f32=st.booleans()))


def check_u(case):
    dt = np.float32 if case["f32"] else np.float64
    bm = dfx.UnsafeBrownianPath(SHAPES[case["shape"]], jr.PRNGKey(case["seed"]), LEVY[case["levy"]])
    t0 = dt(case["t0"])
    hs = np.array(case["hs"], dtype=dt)
    with sut("evaluate"):
        a = [bm.evaluate(jnp.asarray(t0), jnp.asarray(dt(t0 + h)), use_levy=True) for h in hs]
        b = [bm.evaluate(jnp.asarray(t0), jnp.asarray(dt(t0 + h)), use_levy=True) for h in hs]
        v = jax.vmap(lambda x: bm.evaluate(jnp.asarray(t0), x, use_levy=True))(jnp.asarray((t0 + hs).astype(dt)))
        w = bm.evaluate(jnp.asarray(t0), jnp.asarray(dt(t0 + hs[0])))
    close(a, b, "repeated evaluation", 0, 0)
    close(a[0].W, w, "with and without Levy area", 1e-12, 1e-12)
    for i, q in enumerate(a):
        require(isinstance(q, LEVY[case["levy"]]), "levy area type")
        close(jtu.tree_map(lambda x: np.asarray(x)[i], v), q, "vmap", 1e-6, 1e-7)
        for d in jtu.tree_leaves(q.dt):
            close(float(d), float(dt(t0 + hs[i])) - float(t0), "dt", 1e-5, 1e-6)
    fl = lambda q: np.concatenate([np.ravel(np.asarray(x, np.float64)) for x in jtu.tree_leaves(q.W)])  # noqa: E731
    for i in range(4):
        for j in range(i):
            if dt(t0 + hs[i]) != dt(t0 + hs[j]):
                x, y = fl(a[i]) / np.sqrt(hs[i]), fl(a[j]) / np.sqrt(hs[j])
                require(not np.any(np.isclose(x, y, rtol=1e-6, atol=0)), "different intervals share their noise")
    z = fl(a[0])
    require(len(np.unique(z)) == len(z), "components share their noise")
    if case["levy"] != "W":
        Hs = np.concatenate([np.ravel(np.asarray(x, np.float64)) for x in jtu.tree_leaves(a[0].H)])
        require(not np.any(np.isclose(Hs * np.sqrt(12), z, rtol=1e-5, atol=0)), "H shares its noise with W")
        if case["levy"] == "K":
            Ks = np.concatenate([np.ravel(np.asarray(x, np.float64)) for x in jtu.tree_leaves(a[0].K)])
            require(not np.any(np.isclose(Ks * np.sqrt(720), z, rtol=1e-5, atol=0)), "K shares its noise with W")
            require(not np.any(np.isclose(Ks * np.sqrt(60), Hs, rtol=1e-5, atol=0)), "K shares its noise with H")
    return dict(nontrivial=len(set(case["hs"])) > 1, evals=4, labels=[case["levy"], case["shape"]])


PARTS = [
    Part("tree", strat, check, quick=48, thorough=400),
    Part("unsafe", strat_u, check_u, quick=32, thorough=200),
]
