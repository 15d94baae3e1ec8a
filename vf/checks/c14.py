"""C14: vmap of diffeqsolve equals solving each element on its own."""
from ..core import Part
from ..util import *  # noqa: F401,F403

D = 2
KEYS = ["y0", "args", "t0", "t1", "dt0", "tol", "ts", "thr", "key", "grid"]


def f_bad(t, y, args):
    """Becomes NaN beyond a threshold time (per element)."""
    a, thr = args
    return f_nl(t, y, a) * jnp.where(t * jnp.sign(a[4]) > thr, jnp.nan, 1.0)


def f_bad_half(t, y, args):
    return 0.5 * f_bad(t, y, args)


def g_sde(t, y, args):
    a, _ = args
    return 0.3 * jnp.cos(y + a[1])


@st.composite
def strat(draw):
    kind = draw(weighted({"ode": 5, "sde": 1}))
    name = draw(weighted({**SOLVER_W, "Half:Heun": 1})) if kind == "ode" else draw(st.sampled_from(["Heun", "Euler", "ItoMilstein", "ShARK", "SRA1", "SPaRK"]))
    ctrl = draw(weighted({"const": 2, "pid": 4, "clip": 2, "stepto": 1, "piddt": 1}))
    if kind == "sde" or name in NOERR:
        ctrl = draw(st.sampled_from(["const", "stepto"]))
    ev = draw(st.sampled_from([None, None, "bool", "real", "real-root", "two-root", "mixed-root"]))
    mapped = draw(st.lists(st.sampled_from(KEYS), min_size=1, max_size=5, unique=True))
    return dict(
        kind=kind, name=name, ctrl=ctrl, event=ev, mapped=sorted(mapped), mix_dir=draw(st.booleans()),
        save=draw(st.sampled_from(["t1", "ts", "steps", "dense", "t0steps", "subs", "steps2"])), max_steps=draw(st.sampled_from([12, 40, 40])),
        inst=[dict(seed=draw(seeds), bad=draw(st.sampled_from([False, False, True])), empty=draw(st.sampled_from([False, False, True])), back=draw(st.booleans()))
              for _ in range(2)],
    )


def make(case):
    name, kind, ctrl = case["name"], case["kind"], case["ctrl"]
    s = getattr(dfx, name)() if kind == "sde" else solver(name)
    base = name[5:] if name.startswith("Half:") else name

    def run(i):
        args = (i["args"], i["thr"][1])
        if kind == "sde":
            bm = dfx.VirtualBrownianTree(-10.0, 10.0, 2**-6, (D,), i["key"], levy_area=dfx.SpaceTimeLevyArea)
            term = dfx.MultiTerm(dfx.ODETerm(f_bad), dfx.ControlTerm(lambda t, y, a: jnp.diag(g_sde(t, y, a)) if name not in ("ShARK", "SRA1") else jnp.diag(0.2 * (1 + jnp.cos(a[0][1]) * t)), bm))
        elif base in IMEX:
            term = dfx.MultiTerm(dfx.ODETerm(f_bad_half), dfx.ODETerm(f_bad_half))
        else:
            term = dfx.ODETerm(f_bad)
        dt0 = i["dt0"]
        if ctrl == "const":
            sc = dfx.ConstantStepSize()
        elif ctrl == "stepto":
            sc, dt0 = dfx.StepTo(ts=i["t0"] + (i["t1"] - i["t0"]) * i["grid"]), None
            sc = dfx.StepTo(ts=sc.ts.at[-1].set(i["t1"]))
        else:
            sc = dfx.PIDController(rtol=i["tol"], atol=i["tol"] * 0.1, dtmin=1e-4 if ctrl == "piddt" else None, force_dtmin=False,
                                   error_order=2.0 if base in ("ReversibleHeun",) else None)
            if ctrl == "clip":
                sc = dfx.ClipStepSizeController(sc, step_ts=i["t0"] + (i["t1"] - i["t0"]) * i["grid"][1:3], jump_ts=(i["t0"] + (i["t1"] - i["t0"]) * i["grid"][3:4]))
        ts = i["t0"] + (i["t1"] - i["t0"]) * i["ts"]
        ts = ts.at[-1].set(i["t1"])
        S = case["save"]
        kw = dict(t1=dict(t1=True), ts=dict(ts=ts, t1=True), steps=dict(steps=True), dense=dict(dense=True, t1=True),
                  t0steps=dict(t0=True, steps=True, ts=ts), subs=dict(subs=[dfx.SubSaveAt(ts=ts, fn=lambda t, y, a: jnp.sum(y) * t), dfx.SubSaveAt(t0=True, t1=True)]),
                  steps2=dict(steps=2, t1=True))[S]
        c_real = lambda t, y, a, **k: y[0] - i["thr"][0]  # noqa: E731
        c_bool = lambda t, y, a, **k: jnp.abs(t - i["t0"]) > i["thr"][2]  # noqa: E731
        c2 = lambda t, y, a, **k: y[1] + jnp.sin(t) - i["thr"][0]  # noqa: E731
        root = optx.Newton(1e-9, 1e-9)
        event = {None: None, "bool": dfx.Event(c_bool), "real": dfx.Event(c_real), "real-root": dfx.Event(c_real, root),
                 "two-root": dfx.Event([c2, c_real], root), "mixed-root": dfx.Event({"a": c_bool, "b": c_real}, root)}[case["event"]]
        sol = dfx.diffeqsolve(term, s, i["t0"], i["t1"], dt0, i["y0"], args, stepsize_controller=sc, saveat=dfx.SaveAt(**kw), event=event,
                              max_steps=case["max_steps"], throw=False)
        out = dict(ts=sol.ts, ys=sol.ys, stats={k: v for k, v in sol.stats.items() if k != "max_steps"}, result=sol.result._value, mask=sol.event_mask,
                   t01=(sol.t0, sol.t1))
        if S == "dense":
            te = jnp.where(jnp.isfinite(sol.ts[-1]), sol.ts[-1], i["t0"])  # up to what was reached
            # (inside the interval, off the end points)
            out["dense"] = jax.vmap(sol.evaluate)(i["t0"] + (te - i["t0"]) * jnp.array([0.11, 0.52, 0.93]))
        return out

    return run


def check(case):
    run = make(case)
    mapped = set(case["mapped"])
    B = 3
    single = eqx.filter_jit(run)
    batched = jax.jit(jax.vmap(run, in_axes=({k: (0 if k in mapped else None) for k in KEYS},)))
    nt, ev, labs = 0, 0, set()
    root = case["event"] and "root" in case["event"]
    for ins in case["inst"]:
        r = rng(ins["seed"])
        els = []
        for b in range(B):
            t0 = r.uniform(-1, 1)
            L = r.uniform(0.3, 2)
            sg = -1 if (ins["back"] if not case["mix_dir"] else r.uniform() < 0.5) else 1
            if ins["empty"] and b == 1:
                L = 0.0
            if case["ctrl"] == "stepto" and L == 0:
                L = 0.5
            y0 = mk_y0(ins["seed"] + b, D)
            els.append(dict(y0=y0, args=mk_args(ins["seed"] + 5 * b, D), t0=F(t0), t1=F(t0 + sg * L), dt0=F((sg * L if L else sg) / r.uniform(2, 9)),
                            tol=F(10 ** r.uniform(-6, -3)), ts=F(np.sort(np.append(r.uniform(0, 1, 4), 1.0))),
                            thr=(F(y0[0] + r.normal() * 0.3), F(t0 + L * 0.6 if ins["bad"] and r.uniform() < 0.5 else 1e3), F(r.uniform(0.1, 3))),
                            key=jr.PRNGKey(ins["seed"] + b), grid=F(np.concatenate([[0], np.sort(r.uniform(0.05, 0.95, 4)), [1]]))))
        if not ("t0" in mapped and "t1" in mapped and "dt0" in mapped):
            # keep the direction of time, and of dt0, consistent
            for e in els:
                e["t0"], e["t1"], e["dt0"] = els[0]["t0"], els[0]["t1"], els[0]["dt0"]
            if "t1" in mapped:
                for b, e in enumerate(els):
                    e["t1"] = e["t0"] + (e["t1"] - e["t0"]) * (1.0 - 0.3 * b if not (ins["empty"] and b == 1 and case["ctrl"] != "stepto") else 0.0)
            if "t0" in mapped:
                for b, e in enumerate(els):
                    e["t0"] = e["t1"] - (e["t1"] - e["t0"]) * (1.0 + 0.2 * b)
            if "dt0" in mapped:
                for b, e in enumerate(els):
                    e["dt0"] = e["dt0"] * (0.7 + 0.4 * b)
        for e in els:
            for k in KEYS:
                if k not in mapped:
                    e[k] = els[0][k]
        stack = {k: (jtu.tree_map(lambda *x: jnp.stack(x), *[e[k] for e in els]) if k in mapped else els[0][k]) for k in KEYS}
        with sut("element"):
            ref = [jtu.tree_map(np.asarray, single(e)) for e in els]
        with sut("vmap"):
            got = jtu.tree_map(np.asarray, batched(stack))
        for b in range(B):
            gb = jtu.tree_map(lambda x: x[b], got)
            what = f"element {b} of {case['name']}/{case['ctrl']}/{case['save']}/{case['event']}"
            rb = ref[b]
            require(int(gb["result"]) == int(rb["result"]), f"{what}: result {gb['result']} batched, {rb['result']} alone")
            close(gb["mask"], rb["mask"], f"{what}: event mask")
            close(gb["stats"], rb["stats"], f"{what}: stats", 0, 0)
            if case["event"] == "mixed-root" and rb["mask"]["a"]:
                pass
            tol = 1e-6 if (root or case["name"] in IMPL or case["name"] in IMEX) else 1e-8
            for k in ("t01", "ts", "ys"):
                close(gb[k], rb[k], f"{what}: {k}", tol, tol)
            if "dense" in rb:
                # (dense output near a jump between steps is piecewise: compare generously)
                close(gb["dense"], rb["dense"], f"{what}: dense", 1e-6, 1e-6)
        steps = {int(x["stats"]["num_steps"]) for x in ref}
        res = {int(x["result"]) for x in ref}
        nt += len(steps) > 1 or len(res) > 1
        ev += B + 1
        labs |= {f"results={len(res)}", f"steps={len(steps)}"}
    return dict(nontrivial=nt > 0, evals=ev, labels=sorted(labs) + [case["kind"], case["ctrl"], case["save"], f"event={case['event']}"])


PARTS = [Part("vmap", strat, check, quick=40, thorough=240)]
