"""C08: order conditions through rooted-tree polynomial systems with exact solutions.

Every rooted tree gives a component  y_tau' = a * prod_{children} y_child  (a child may be
time itself).  The system is quasi-homogeneous, so every elementary differential of order
> |tau| vanishes on component tau: a method of order p must be exact (to rounding) on all
components with |tau| <= p, from any initial value, over any sequence of steps.
"""
import itertools

from ..core import Part
from ..util import *  # noqa: F401,F403


@ft.lru_cache(None)
def trees(maxorder):
    """[(order, children)] with children indices into the list; index 0 is the leaf."""
    out = [(1, ())]
    by_order = {1: [0]}
    for n in range(2, maxorder + 1):
        by_order[n] = []
        # multisets of trees with total order n-1
        def rec(rem, maxidx):
            if rem == 0:
                yield ()
                return
            for i in range(maxidx, -1, -1):
                o = out[i][0]
                if o <= rem:
                    for rest in rec(rem - o, i):
                        yield (i, *rest)
        new = list(rec(n - 1, len(out) - 1))
        for ch in new:
            by_order[n].append(len(out))
            out.append((n, ch))
    return out


NTREES = {1: 1, 2: 2, 3: 4, 4: 8, 5: 17, 6: 37, 7: 85, 8: 200, 9: 486}

# solver: (order, order of the embedded method (error vanishes up to it), dense order)
SPEC = {
    "Euler": (1, None, 1), "Heun": (2, 1, 2), "Midpoint": (2, 1, 1), "Ralston": (2, 1, 1),
    "Bosh3": (3, 2, 3), "Tsit5": (5, 4, 4), "Dopri5": (5, 4, 4), "Dopri8": (8, 7, 5),
    "ImplicitEuler": (1, 1, 1), "Kvaerno3": (3, 2, 3), "Kvaerno4": (4, 3, 3), "Kvaerno5": (5, 4, 3),
    "KenCarp3": (3, 2, 2), "KenCarp4": (4, 3, 3), "KenCarp5": (5, 4, 3), "Sil3": (2, 2, 2),
}


def vf(t, y, args):
    idx, coef, tau = args[:3]
    # two copies of every tree, then the constant 1, then time
    ext = jnp.concatenate([y, jnp.ones(1), jnp.reshape(t + tau, (1,))])
    return coef * jnp.prod(ext[idx], axis=1)


def vf_e(t, y, args):
    return vf(t, y, args) * args[3]


def vf_i(t, y, args):
    return vf(t, y, args) * (1 - args[3])


TERM = dfx.ODETerm(vf)
TERMS_IMEX = dfx.MultiTerm(dfx.ODETerm(vf_e), dfx.ODETerm(vf_i))


def system(order, seed):
    """-> idx, coef, tau, colour (numpy) for the system of all trees up to `order`."""
    r = rng(seed)
    tr = trees(order)
    n = len(tr)
    m = max(1, order - 1)
    one, time = 2 * n, 2 * n + 1
    idx = np.full((2 * n, m), one)
    for copy in range(2):
        for i, (o, ch) in enumerate(tr):
            for k, c in enumerate(ch):
                if c == 0 and r.rand() < 0.3:
                    idx[copy * n + i, k] = time
                else:
                    idx[copy * n + i, k] = c + n * r.randint(2)
    coef = r.uniform(0.5, 1.5, 2 * n) * r.choice([-1, 1], 2 * n)
    colour = np.concatenate([np.ones(n), np.zeros(n)])  # copy 0 explicit, copy 1 implicit
    return idx, coef, r.uniform(-1, 1), colour


def exact(order, idx, coef, tau, y0, t0):
    """Polynomials in s = t - t0 (ascending coefficients) for each component."""
    tr = trees(order)
    n = len(tr)
    polys = [None] * (2 * n) + [np.array([1.0]), np.array([t0 + tau, 1.0])]
    for i in range(n):
        for copy in range(2):
            j = copy * n + i
            p = np.array([coef[j]])
            for k in idx[j]:
                p = np.convolve(p, polys[k])
            polys[j] = np.concatenate([[y0[j]], p / np.arange(1, len(p) + 1)])
    return polys[: 2 * n]


def ev(polys, s):
    return np.array([np.polynomial.polynomial.polyval(s, p) for p in polys])


def scale_of(polys, L):
    return np.array([np.polynomial.polynomial.polyval(L, np.abs(p)) for p in polys])


@st.composite
def strat(draw):
    name = draw(weighted({k: 1 for k in SPEC}))
    ctrl = draw(st.sampled_from(["stepto", "stepto", "pid"] if SPEC[name][1] else ["stepto", "const"]))
    nst = draw(st.sampled_from([1, 3, 7]))
    inst = [dict(seed=draw(seeds), t0=draw(frac(-1, 1)), length=draw(frac(0.3, 1.2)),
                 direction=draw(st.sampled_from([1, 1, -1])), spread=draw(st.sampled_from([0.0, 0.5, 1.5])),
                 u=draw(st.lists(unit, min_size=3, max_size=3)))
            for _ in range(draw(st.integers(3, 6)))]
    return dict(solver=name, ctrl=ctrl, nst=nst, inst=inst)


def TOL(name):
    return 2e-10 if name in IMPL or name in IMEX else 2e-11


def setup(name, p, ins):
    idx, coef, tau, colour = system(p, ins["seed"])
    r = rng(ins["seed"] + 11)
    y0 = r.uniform(-1, 1, len(coef))
    args = (jnp.asarray(idx), F(coef), F(tau), F(colour))
    t0 = ins["t0"]
    polys = exact(p, idx, coef, tau, y0, t0)
    return y0, args, t0, polys


def check(case):
    name = case["solver"]
    p, q, dq = SPEC[name]
    s = solver(name)
    terms = TERMS_IMEX if name in IMEX else TERM
    orders = np.array([o for o, _ in trees(p)] * 2)
    evals = nt = 0
    for ins in case["inst"]:
        y0, args, t0, polys = setup(name, p, ins)
        d = ins["direction"]
        L = ins["length"]
        t1 = t0 + d * L
        r = rng(ins["seed"] + 12)
        dt0 = None
        if case["ctrl"] == "stepto":
            g = np.concatenate([[0], np.cumsum(10 ** r.uniform(-ins["spread"], 0, case["nst"]))])
            ts = t0 + d * L * g / g[-1]
            ts[-1] = t1
            sc = dfx.StepTo(ts=F(ts))
        elif case["ctrl"] == "const":
            sc, dt0 = dfx.ConstantStepSize(), F(d * L / (case["nst"] - 0.3))
        else:
            sc, dt0 = dfx.PIDController(rtol=F(1e-3), atol=F(1e-3), dtmax=F(L / case["nst"]), dtmin=F(L / 30)), F(d * 0.5 * L)
        ets = np.sort(t0 + d * L * np.array(ins["u"]))[::d]
        ets = np.clip(ets, min(t0, t1), max(t0, t1))
        with sut("solve"):
            sol = dfx.diffeqsolve(
                terms, s, F(t0), F(t1), dt0, F(y0), args, stepsize_controller=sc, max_steps=64,
                saveat=dfx.SaveAt(subs=[dfx.SubSaveAt(t0=True, steps=True), dfx.SubSaveAt(ts=F(ets))]),
                throw=False)
        require(sol.result == dfx.RESULTS.successful, f"{name} failed on a polynomial system: {sol.result._value}")
        evals += 1
        ts, ys = np.asarray(sol.ts[0]), np.asarray(sol.ys[0])
        na = int(sol.stats["num_accepted_steps"])
        ts, ys = ts[: na + 1], ys[: na + 1]
        nt += na >= 2
        sc_ = scale_of(polys, L)
        for t, y in zip(ts, ys):
            e = np.abs(y - ev(polys, t - t0)) / sc_
            bad = e > TOL(name)
            if bad.any():
                i = int(np.argmax(e))
                fail(f"{name} (order {p}) is not exact on tree {trees(p)[i % len(trees(p))]} of order "
                     f"{orders[i]}: relative error {e[i]:.2e} at t={t} after steps {ts[:8]}")
        for t, y in zip(np.asarray(sol.ts[1]), np.asarray(sol.ys[1])):
            e = np.abs(y - ev(polys, t - t0)) / sc_
            e = np.where(orders <= dq, e, 0)
            if np.any(e > 10 * TOL(name)):
                i = int(np.argmax(e))
                fail(f"{name}: dense output (order {dq}) is not exact on tree "
                     f"{trees(p)[i % len(trees(p))]}: relative error {e[i]:.2e} at t={t}")
    return dict(nontrivial=nt > 0, evals=evals, labels=[name, case["ctrl"]])


# ------------------------------------------------------------------ error estimates
@ft.lru_cache(None)
def _stepper(name):
    s = solver(name)
    terms = TERMS_IMEX if name in IMEX else TERM

    @jax.jit
    def go(t0, t1, y0, args):
        st_ = s.init(terms, t0, t1, y0, args)
        y1, err, dense, st2, res = s.step(terms, t0, t1, y0, args, st_, made_jump=False)
        return y1, err, s.order(terms)

    return go


def strat_err():
    return st.fixed_dictionaries(dict(
        solver=st.sampled_from([k for k, v in SPEC.items()]),
        inst=st.lists(st.fixed_dictionaries(dict(seed=seeds, t0=frac(-1, 1), h=frac(0.05, 1.0))), min_size=4, max_size=8)))


def check_err(case):
    name = case["solver"]
    p, q, _ = SPEC[name]
    P = max(p, (q or 0) + 1)
    for ins in case["inst"]:
        y0, args, t0, polys = setup(name, P, ins)
        h = ins["h"]
        with sut("step"):
            y1, err, order = _stepper(name)(F(t0), F(t0 + h), F(y0), args)
        require(int(order) == p, f"{name}.order is {order}, documented {p}")
        if q is None:
            continue
        err = np.asarray(err)
        orders = np.array([o for o, _ in trees(P)] * 2)
        sc_ = scale_of(polys, h)
        rel = np.abs(err) / sc_
        low = orders <= q
        require(bool(np.all(rel[low] <= 5 * TOL(name))),
                lambda: f"{name}: error estimate {rel[low].max():.2e} on problems of order <= {q}")
        nxt = orders == q + 1
        hi = (np.abs(err)[nxt] / h ** (q + 1)).max()
        require(hi > 1e-6, f"{name}: error estimate vanishes on order {q+1}: {hi:.2e}")
        # embedded solution: y1 - err_signed is what the lower order method gives; on the
        # pure tree system started from zero both scale exactly like h^|tau|
        z = np.zeros_like(y0)
        a0 = (args[0], args[1], F(-t0), args[3])
        with sut("step"):
            e1 = np.abs(np.asarray(_stepper(name)(F(t0), F(t0 + h), F(z), a0)[1]))
            e2 = np.abs(np.asarray(_stepper(name)(F(t0), F(t0 + h / 2), F(z), a0)[1]))
        want = e1 * 0.5 ** orders
        require(bool(np.all(np.abs(e2 - want) <= 1e-8 * e1.max() + 1e-13 + TOL(name) * (name in IMPL or name in IMEX))),
                f"{name}: error estimate does not scale with the order of the problem")
    return dict(nontrivial=True, evals=len(case["inst"]), labels=[name])


PARTS = [
    Part("order", strat, check, quick=120, thorough=300),
    Part("error", strat_err, check_err, quick=64, thorough=160),
]
