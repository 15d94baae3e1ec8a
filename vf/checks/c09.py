"""C09: implicit solvers solve their stage equations, or say so."""
from ..core import Part
from ..util import *  # noqa: F401,F403

NAMES = ["ImplicitEuler", "Kvaerno3", "Kvaerno4", "Kvaerno5", "KenCarp3", "KenCarp4", "KenCarp5", "Sil3"]
CLS = {n: getattr(dfx, n) for n in NAMES}
D = 3


# ---- the problem: f_impl = -s * B (y - g(t)) - mu y^3   (unique implicit solutions), f_expl smooth
def f_impl(t, y, a):
    B, g, w, mu = a[:4]
    return -(B @ (y - g * jnp.sin(w * t))) - mu * y**3


def f_expl(t, y, a):
    A, c = a[4:6]
    return jnp.tanh(A @ y) + c * jnp.cos(t)


def tree(f):
    def out(t, z, a):
        return to_tree(f(t, from_tree(z), a))

    return out


TERMS = {(False, False): dfx.ODETerm(f_impl), (False, True): dfx.ODETerm(tree(f_impl)),
         (True, False): dfx.MultiTerm(dfx.ODETerm(f_expl), dfx.ODETerm(f_impl)),
         (True, True): dfx.MultiTerm(dfx.ODETerm(tree(f_expl)), dfx.ODETerm(tree(f_impl)))}


def problem(ins):
    r = rng(ins["seed"])
    Q = np.linalg.qr(r.randn(D, D))[0]
    lam = 10.0 ** r.uniform(-1, ins["stiff"], D)
    S = r.randn(D, D)
    B = Q @ np.diag(lam) @ Q.T + ins["skew"] * lam.max() * (S - S.T) / 4  # symmetric part > 0
    return (B, r.uniform(-1, 1, D), r.uniform(0.5, 3), ins["mu"] * 10.0 ** r.uniform(-1, 1),
            r.uniform(-1, 1, (D, D)), r.uniform(-1, 1, D)), r.uniform(-1.5, 1.5, D)


# ---- NumPy reference
def nf_impl(t, y, a):
    B, g, w, mu = a[:4]
    return -(B @ (y - g * np.sin(w * t))) - mu * y**3


def nf_jac(y, a):
    return -a[0] - 3 * a[3] * np.diag(y**2)


def nf_expl(t, y, a):
    return np.tanh(a[4] @ y) + a[5] * np.cos(t)


def solve_stage(t, part, hg, a):
    """y = part + hg * f_impl(t, y), by damped Newton (the equation is monotone)."""
    y = part.copy()
    res = lambda y: y - part - hg * nf_impl(t, y, a)  # noqa: E731
    r = res(y)
    for _ in range(200):
        dy = np.linalg.solve(np.eye(D) - hg * nf_jac(y, a), r)
        s = 1.0
        while s > 1e-4 and np.linalg.norm(res(y - s * dy)) > np.linalg.norm(r) * (1 + 1e-14):
            s *= 0.5
        y = y - s * dy
        r = res(y)
        if np.linalg.norm(s * dy) <= 1e-15 * (1 + np.linalg.norm(y)):
            break
    return y


def ref_step(name, t0, t1, y0, a):
    """-> y1, error estimate, max |f|"""
    h = t1 - t0
    if name == "ImplicitEuler":
        k0 = h * nf_impl(t0, y0, a)
        y1 = solve_stage(t1, y0, h, a)
        k1 = h * nf_impl(t1, y1, a)
        return y1, 0.5 * (k1 - k0), max(np.abs(k0).max(), np.abs(k1).max()) / h
    tab = CLS[name].tableau
    et, it = tab.tableaus if name in IMEX else (None, tab)
    n = it.num_stages
    ce = None if et is None else np.concatenate([[et.c1], et.c])
    ci = np.concatenate([[it.c1], it.c])
    fi, fe, fm = [], [], 0.0
    for i in range(n):
        part = y0.copy()
        for j in range(i):
            part = part + h * it.a_lower[i - 1][j] * fi[j]
            if et is not None:
                part = part + h * et.a_lower[i - 1][j] * fe[j]
        d = it.a_diagonal[i]
        y = part if d == 0 else solve_stage(t0 + ci[i] * h, part, h * d, a)
        # more accurate than evaluating f when stiff
        fi.append(nf_impl(t0 + ci[i] * h, y, a) if d == 0 else (y - part) / (h * d))
        fm = max(fm, np.abs(fi[-1]).max())
        if et is not None:
            fe.append(nf_expl(t0 + ce[i] * h, y, a))
    y1, err = y0.copy(), np.zeros(D)
    for j in range(n):
        y1 = y1 + h * it.b_sol[j] * fi[j]
        err = err + h * it.b_error[j] * fi[j]
        if et is not None:
            y1 = y1 + h * et.b_sol[j] * fe[j]
            err = err + h * et.b_error[j] * fe[j]
    return y1, err, fm


ROOT = {
    "newton": lambda tol: optx.Newton(rtol=tol, atol=tol),
    "chord": lambda tol: optx.Chord(rtol=tol, atol=tol),
    "verychord": lambda tol: dfx.VeryChord(rtol=tol, atol=tol),
    "default": lambda tol: None,
    "with_newton": lambda tol: dfx.with_stepsize_controller_tols(optx.Newton)(),
}


@ft.lru_cache(None)
def mk_solver(name, root, tol, ms):
    rf = ROOT[root](tol)
    kw = {} if rf is None else dict(root_finder=rf)
    if ms is not None:
        kw["root_find_max_steps"] = ms
    return CLS[name](**kw)


@st.composite
def strat(draw):
    name = draw(st.sampled_from(NAMES))
    mode = draw(st.sampled_from(["tight", "tight", "starved", "starved", "adaptive"]))
    adaptive = mode == "adaptive" or (mode == "starved" and draw(st.booleans()))
    if mode == "tight":
        root, tol, ms = draw(st.sampled_from(["newton", "verychord"])), 1e-10, 50
    elif mode == "starved":
        root = draw(st.sampled_from(["newton", "verychord", "chord"]))
        tol, ms = 1e-7, draw(st.sampled_from([2, 3]))
    else:
        root, tol, ms = draw(st.sampled_from(["default", "with_newton"])), 1e-6, None
    inst = [dict(seed=draw(seeds), stiff=draw(st.sampled_from([0.0, 1.0, 3.0, 5.0])), mu=draw(st.sampled_from([0.0, 1.0, 30.0])),
                 skew=draw(st.sampled_from([0.0, 1.0])), L=draw(frac(0.1, 3)), h0=draw(frac(0.02, 1)), t0=draw(frac(-2, 2)),
                 back=False)
            for _ in range(draw(st.integers(4, 7)))]
    return dict(solver=name, mode=mode, adaptive=adaptive, root=root, tol=tol, ms=ms, tree=draw(st.booleans()), inst=inst)


ROOT_FAIL = [dfx.RESULTS.nonlinear_max_steps_reached, dfx.RESULTS.nonlinear_divergence]
NST = 6


def check(case):
    name = case["solver"]
    s = mk_solver(name, case["root"], case["tol"], case["ms"])
    terms = TERMS[(name in IMEX, case["tree"])]
    nt = 0
    labels = [name, case["mode"], case["root"]]
    for ins in case["inst"]:
        a, y0 = problem(ins)
        ja = tuple(F(x) for x in a)
        t0 = ins["t0"]
        t1 = t0 + ins["L"]
        jy = to_tree(F(y0)) if case["tree"] else F(y0)
        if case["adaptive"]:
            sc = dfx.PIDController(rtol=1e-6, atol=1e-6) if case["mode"] == "adaptive" else pid(1e-3, 1e-3)
            dt0 = F(ins["h0"])
            ms = 400
        else:
            g = np.sort(np.concatenate([[0, 1], rng(ins["seed"] + 5).uniform(0.02, 0.98, NST - 1)]))
            ts = t0 + ins["L"] * g
            ts[-1] = t1
            sc, dt0, ms = dfx.StepTo(ts=F(ts)), None, 400
        with sut("solve"):
            sol = dfx.diffeqsolve(terms, s, F(t0), F(t1), dt0, jy, ja, stepsize_controller=sc, max_steps=ms,
                                  saveat=dfx.SaveAt(t0=True, steps=True), throw=False)
        ok = bool(sol.result == dfx.RESULTS.successful)
        rf = any(bool(sol.result == r) for r in ROOT_FAIL)
        mx = bool(sol.result == dfx.RESULTS.max_steps_reached)
        require(ok or rf or mx, f"unexpected result {sol.result._value}")
        na = int(sol.stats["num_accepted_steps"])
        ys = np.asarray(from_tree(sol.ys) if case["tree"] else sol.ys)[: na + 1]
        ts = np.asarray(sol.ts)[: na + 1]
        if case["adaptive"]:
            # a step whose root find failed is rejected and retried
            require(not rf, f"{name}: a failed root find ended an adaptive solve (after {na} steps)")
        else:
            require(not mx, "max_steps with StepTo")
            if case["mode"] == "tight" and case["root"] == "newton" and ins["mu"] == 0 and ins["stiff"] <= 1:
                require(ok, f"{name}: Newton with 50 iterations failed on a mildly stiff linear problem: {sol.result._value}")
        if ok:
            require(ts[-1] == t1, f"successful but stopped at {ts[-1]}")
        last = na if ok or case["adaptive"] else na - 1  # a failed fixed step is the last one
        for i in range(last):
            if i > 40 and i % 7:
                continue
            y1, err, fm = ref_step(name, ts[i], ts[i + 1], ys[i], a)
            h = ts[i + 1] - ts[i]
            tol = 200 * case["tol"] * (h * (1 + fm)) + 1e-9 * (1 + np.abs(ys[i]).max() + np.abs(y1).max())
            if name == "ImplicitEuler":
                tol = tol + 200 * case["tol"]
            e = np.abs(ys[i + 1] - y1).max()
            require(e <= tol, f"{name} ({case['root']}): step [{ts[i]}, {ts[i+1]}] from {ys[i]} gives {ys[i+1]}, the stage "
                    f"equations give {y1} (difference {e:.2e} > {tol:.2e}; stiffness {h*np.abs(a[0]).max():.1e})")
            if case["adaptive"]:
                with np.errstate(all="ignore"):
                    sce = np.sqrt(np.mean((err / (sc_tol(case) * (1 + np.maximum(np.abs(ys[i]), np.abs(ys[i + 1]))))) ** 2))
                slack = 1e-6 + 300 * tol / sc_tol(case)
                if case["mode"] != "adaptive":
                    require(sce < 1 + slack, f"accepted a step with scaled error {sce}")
            nt += h * np.abs(a[0]).max() > 1
        if not ok:
            labels.append("rf-failed" if rf else "max-steps")
            nt += 1
        if case["adaptive"] and int(sol.stats["num_rejected_steps"]) > 0:
            labels.append("rejected")
    return dict(nontrivial=nt > 0, evals=len(case["inst"]), labels=sorted(set(labels)))


def sc_tol(case):
    return 1e-6 if case["mode"] == "adaptive" else 1e-3


# ------------------------------------------------------------------ stability
@st.composite
def strat_lin(draw):
    name = draw(st.sampled_from(NAMES))
    inst = [dict(seed=draw(seeds), logz=draw(frac(-2, 9)), arg=draw(st.sampled_from([0.0, 0.0, 0.3, 0.8, 1.2, 1.5])),
                 h=draw(st.sampled_from([1.0, 0.1, 1e-3])), n=draw(st.just(4))) for _ in range(8)]
    return dict(solver=name, root=draw(st.sampled_from(["newton", "verychord"])), inst=inst)


def lin_vf(t, y, M):
    return M @ y


def zero_f(t, y, M):
    return jnp.zeros_like(y)


LT = dfx.ODETerm(lin_vf)
LTI = dfx.MultiTerm(dfx.ODETerm(zero_f), dfx.ODETerm(lin_vf))


def R_of(name, z):
    """Stability function of the implicit part."""
    if name == "ImplicitEuler":
        return 1 / (1 - z)
    tab = CLS[name].tableau
    it = tab.tableaus[1] if name in IMEX else tab
    n = it.num_stages
    k = np.zeros(n, complex)  # z * Y_i
    for i in range(n):
        part = 1 + sum(it.a_lower[i - 1][j] * k[j] for j in range(i))
        k[i] = z * part / (1 - z * it.a_diagonal[i])
    if abs(z) > 1e3 and it.a_diagonal[-1] == it.b_sol[-1]:  # stiffly accurate: avoid cancellation
        return k[-1] / z
    return 1 + (it.b_sol * k).sum()


LSTABLE = {"ImplicitEuler", "Kvaerno3", "Kvaerno4", "Kvaerno5", "KenCarp3", "KenCarp4", "KenCarp5"}


def check_lin(case):
    name = case["solver"]
    s = mk_solver(name, case["root"], 1e-10, 30)
    nt = failed = 0
    for ins in case["inst"]:
        r = rng(ins["seed"])
        z = -(10.0 ** ins["logz"]) * np.exp(1j * ins["arg"])
        h = ins["h"]
        lam = z / h
        P = r.randn(2, 2)
        while abs(np.linalg.det(P)) < 0.5:
            P = r.randn(2, 2)
        M = P @ np.array([[lam.real, -lam.imag], [lam.imag, lam.real]]) @ np.linalg.inv(P)
        y0 = r.randn(2)
        t0 = 0.0
        ts = np.arange(ins["n"] + 1) * h
        with sut("solve"):
            sol = dfx.diffeqsolve(LTI if name in IMEX else LT, s, F(t0), F(ts[-1]), None, F(y0), F(M),
                                  stepsize_controller=dfx.StepTo(ts=F(ts)), saveat=dfx.SaveAt(steps=True), throw=False)
        if not bool(sol.result == dfx.RESULTS.successful):
            # rounding can keep the root finder from converging when stiff (it is then reported)
            require(any(bool(sol.result == q) for q in ROOT_FAIL + [dfx.RESULTS.singular]), "unexpected result code")
            failed += 1
            continue
        ys = np.asarray(sol.ys)[: ins["n"]]
        R = R_of(name, z)
        cond = np.linalg.cond(P)
        w = (np.linalg.inv(P) @ y0)
        w = w[0] + 1j * w[1]
        big = np.abs(y0).max() * cond
        for i in range(ins["n"]):
            v = R ** (i + 1) * w
            want = P @ np.array([v.real, v.imag])
            tol = 1e-6 * big
            require(np.abs(ys[i] - want).max() <= tol, f"{name}: step {i+1} of y'=My, h*lambda={z}: {ys[i]}, the method gives {want}")
            if name in LSTABLE:
                n0, n1 = abs(w), np.abs(np.linalg.inv(P) @ ys[i])
                require(np.linalg.norm(n1) <= n0 * (1 + 1e-6) + 1e-9 * big, f"{name} amplifies a decaying mode: h*lambda={z}")
                if ins["logz"] > 4:
                    require(np.linalg.norm(n1) <= 1e-2 * n0 + 1e-6 * big, f"{name} (L-stable) does not damp h*lambda={z}: {np.linalg.norm(n1)/n0}")
        nt += ins["logz"] > 0
    return dict(nontrivial=nt > 0, evals=len(case["inst"]), labels=[name, case["root"]] + ["reported failure"] * (failed > 0))


PARTS = [
    Part("stages", strat, check, quick=64, thorough=300),
    Part("linear", strat_lin, check_lin, quick=24, thorough=120),
]
