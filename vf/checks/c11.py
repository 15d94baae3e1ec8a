"""C11: the joint law of Brownian samples, over random layouts and many keys."""
from ..core import Part
from ..util import *  # noqa: F401,F403

LEVY = {"W": dfx.BrownianIncrement, "H": dfx.SpaceTimeLevyArea, "K": dfx.SpaceTimeTimeLevyArea}
SDS = jax.ShapeDtypeStruct
SHAPE = {"a": SDS((), jnp.float64), "b": SDS((1,), jnp.float64)}
NP = 6
NK = {"W": 60000, "H": 50000, "K": 20000}


def feats(q, h):
    """Everything, normalised to what must be independent standard normals. (.., 1) each"""
    out = []
    for nm, s in (("W", 1.0), ("H", 12.0), ("K", 720.0)):
        if hasattr(q, nm):
            for leaf in jtu.tree_leaves(getattr(q, nm)):
                out.append(leaf.reshape(-1) / jnp.sqrt(h / s))
    return jnp.concatenate(out).astype(jnp.float64)


def moments(x):
    """x: (N, m)"""
    N = x.shape[0]
    p4 = jnp.mean(x**4, axis=0)
    return jnp.mean(x, axis=0), x.T @ x / N, p4, jnp.mean(x**3, axis=0)


@ft.lru_cache(None)
def tree_fn(levy):
    @jax.jit
    def go(T0, T1, tol, pts, keys, idx):
        def one(key):
            bm = dfx.VirtualBrownianTree(T0, T1, tol, SHAPE, key, LEVY[levy])
            lo, hi = pts[:-1], pts[1:]
            f = jax.vmap(lambda a, b: feats(bm.evaluate(a, b, use_levy=True), b - a))(lo, hi)
            # one nested query: the interval from a point to a later one
            i, j = idx
            g = feats(bm.evaluate(pts[i], pts[j], use_levy=True), pts[j] - pts[i])
            return jnp.concatenate([f.reshape(-1), g])

        x = jax.vmap(one)(keys)
        return moments(x)

    return go


@ft.lru_cache(None)
def path_fn(levy):
    @jax.jit
    def go(pts, keys):
        def one(key):
            bm = dfx.UnsafeBrownianPath(SHAPE, key, LEVY[levy])
            return jax.vmap(lambda a, b: feats(bm.evaluate(a, b, use_levy=True), b - a))(pts[:-1], pts[1:]).reshape(-1)

        return moments(jax.vmap(one)(keys))

    return go


def nested_cov(t, i, j, levy, nleaf=2):
    """Covariance of the nested interval's normalised features with the adjacent ones."""
    H = t[j] - t[i]
    nf = {"W": 1, "H": 2, "K": 3}[levy]
    out = np.zeros((nf * nleaf, (NP - 1) * nf * nleaf))
    # moments of the large interval as linear functionals of the small ones:
    #  I0 = W, I1 = int_i^j W ds = H(W/2 + Hh), I2 = int (j - s) W_s ds ... done via Chen's relation on basis vectors
    for k in range(i, j):
        h = t[k + 1] - t[k]
        for c in range(nf):
            # unit feature c on interval k, all others zero
            W = np.sqrt(h) if c == 0 else 0.0
            A = np.sqrt(h / 12) if c == 1 else 0.0
            B = np.sqrt(h / 720) if c == 2 else 0.0
            I1 = h * (W / 2 + A)  # over [t_k, t_k+1]
            M = h**2 * (A / 2 + W / 3 - B)  # int_0^h s W_s ds
            a, r = t[k] - t[i], t[j] - t[k + 1]
            tot_I = I1 + r * W
            tot_M = M + a * I1 + W * ((a + h + r) ** 2 - (a + h) ** 2) / 2
            fW = W / np.sqrt(H)
            fH = (tot_I / H - W / 2) / np.sqrt(H / 12)
            hh = tot_I / H - W / 2
            kk = hh / 2 + W / 3 - tot_M / H**2
            fK = kk / np.sqrt(H / 720)
            for leaf in range(nleaf):
                for d, v in enumerate([fW, fH, fK][:nf]):
                    out[d * nleaf + leaf, k * nf * nleaf + c * nleaf + leaf] = v
    return out


def judge(mom, C, N, what, names):
    mean, cov, p4, p3 = [np.asarray(q) for q in mom]
    m = len(mean)
    require(np.isfinite(mean).all() and np.isfinite(cov).all(), f"{what}: non-finite samples")
    z = np.abs(mean) * np.sqrt(N)
    TH = 7.0
    i = int(np.argmax(z))
    require(z[i] < TH, f"{what}: mean of {names(i)} is {mean[i]:.4f} (z={z[i]:.1f})")
    sd = np.sqrt((1 + C**2) / N)  # var of x_i x_j for a Gaussian pair with unit variances
    z = np.abs(cov - C) / sd
    i, j = np.unravel_index(np.argmax(z), z.shape)
    require(z[i, j] < TH, f"{what}: covariance of {names(i)} and {names(j)} is {cov[i, j]:.4f}, expected {C[i, j]:.4f} (z={z[i, j]:.1f})")
    z = np.abs(p4 - 3) / np.sqrt(96 / N)
    i = int(np.argmax(z))
    require(z[i] < 9, f"{what}: fourth moment of {names(i)} is {p4[i]:.3f}, expected 3")
    z = np.abs(p3) / np.sqrt(15 / N)
    i = int(np.argmax(z))
    require(z[i] < 8, f"{what}: third moment of {names(i)} is {p3[i]:.3f}, expected 0")
    # pooled variance by kind of feature: more sensitive
    return m


@st.composite
def strat(draw):
    inst = [dict(seed=draw(seeds), T0=draw(frac(-3, 3)), L=draw(st.sampled_from([1.0, 0.3, 4.0])),
                 logtol=draw(st.integers(4, 9)), off=draw(st.sampled_from([1.0, 0.8, 0.6])),
                 pts=draw(st.lists(st.tuples(st.sampled_from(["u", "u", "dy", "dy+", "dy-", "next"]), unit, st.integers(1, 6)),
                                   min_size=NP, max_size=NP)),
                 ends=draw(st.booleans()), ij=draw(st.sampled_from([(0, 2), (0, NP - 1), (1, 3), (2, 5), (1, 4)])))
            for _ in range(2)]
    return dict(levy=draw(st.sampled_from("WHK")), inst=inst)


def layout(ins):
    tol = ins["off"] * 2.0 ** -ins["logtol"]
    u = []
    for kind, x, k in ins["pts"]:
        dy = np.floor(x * 2**k) / 2**k
        u.append({"u": x, "dy": dy, "dy+": dy + 1e-3, "dy-": dy - 1e-3, "next": (u[-1] if u else x) + 1.02 * tol}[kind])
    u = np.sort(np.clip(u, 0, 1))
    if ins["ends"]:
        u[0] = 0.0
    for i in range(1, NP):
        u[i] = max(u[i], u[i - 1] + 1.02 * tol)
    if u[-1] > 1:  # push back from the right
        u[-1] = 1.0
        for i in range(NP - 2, -1, -1):
            u[i] = min(u[i], u[i + 1] - 1.02 * tol)
    return tol, u


def check(case):
    lv = case["levy"]
    nf = {"W": 1, "H": 2, "K": 3}[lv]
    N = NK[lv]
    for ins in case["inst"]:
        tol, u = layout(ins)
        T0, L = ins["T0"], ins["L"]
        t = np.clip(T0 + L * u, T0, T0 + L)
        keys = jr.split(jr.PRNGKey(ins["seed"]), N)
        i, j = ins["ij"]
        with sut("evaluate"):
            mom = tree_fn(lv)(F(T0), F(T0 + L), F(tol * L), F(t), keys, (jnp.array(i), jnp.array(j)))
        m = (NP - 1) * nf * 2
        C = np.eye(m + 2 * nf)
        X = nested_cov(t, i, j, lv)
        C[m:, :m], C[:m, m:] = X, X.T
        def names(k):
            if k >= m:
                return f"{'WHK'[(k - m) // 2]}[{t[i]:.5g},{t[j]:.5g}] leaf {(k - m) % 2}"
            return f"{'WHK'[(k % (2 * nf)) // 2]}[{t[k // (2 * nf)]:.5g},{t[k // (2 * nf) + 1]:.5g}] leaf {k % 2}"
        judge(mom, C, N, f"VirtualBrownianTree({lv}) on [{T0},{T0 + L}], tol {tol * L}", names)
        # pooled over the intervals
        d = np.diag(np.asarray(mom[1]))[:m].reshape(NP - 1, nf, 2)
        for f_ in range(nf):
            v = d[:, f_].mean()
            z = abs(v - 1) * np.sqrt(N * 2 * (NP - 1) / 2)
            require(z < 7, f"VirtualBrownianTree({lv}): variance of {'WHK'[f_]} is {v:.4f} of its value (z={z:.1f})")
    return dict(nontrivial=True, evals=N * len(case["inst"]), labels=[lv])


def strat_u():
    return st.fixed_dictionaries(dict(
        levy=st.sampled_from("WHK"), seed=seeds, t0=frac(-3, 3),
        hs=st.lists(frac(0.001, 3), min_size=NP - 1, max_size=NP - 1)))


def check_u(case):
    lv = case["levy"]
    nf = {"W": 1, "H": 2, "K": 3}[lv]
    N = 60000
    t = case["t0"] + np.concatenate([[0], np.cumsum(case["hs"])])
    keys = jr.split(jr.PRNGKey(case["seed"]), N)
    with sut("evaluate"):
        mom = path_fn(lv)(F(t), keys)
    names = lambda k: f"{'WHK'[(k % (2 * nf)) // 2]} on interval {k // (2 * nf)} leaf {k % 2}"  # noqa: E731
    judge(mom, np.eye((NP - 1) * nf * 2), N, f"UnsafeBrownianPath({lv})", names)
    d = np.diag(np.asarray(mom[1])).reshape(NP - 1, nf, 2)
    for f_ in range(nf):
        v = d[:, f_].mean()
        z = abs(v - 1) * np.sqrt(N * (NP - 1))
        require(z < 7, f"UnsafeBrownianPath({lv}): variance of {'WHK'[f_]} is {v:.4f} of its value")
    return dict(nontrivial=True, evals=N, labels=[lv])


PARTS = [
    Part("tree", strat, check, quick=24, thorough=200),
    Part("unsafe", strat_u, check_u, quick=12, thorough=64),
]
