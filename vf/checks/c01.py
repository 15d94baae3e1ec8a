"""C01: SaveAt returns exactly the requested outputs."""
from ..core import Part
from ..util import *  # noqa: F401,F403

MAXS = 64


def fn_stat(t, y, args):
    v = jnp.concatenate([jnp.ravel(l) for l in jtu.tree_leaves(y)])
    return {"m": jnp.sum(v) + 3.0 * t, "v": (2.0 * v + args[1][0],)}


def fn_time(t, y, args):
    return t


FNS = {"y": None, "stat": fn_stat, "time": fn_time}


@st.composite
def strat(draw):
    name = draw(weighted(SOLVER_W))
    ctrl = draw(st.sampled_from(
        ["const", "stepto"] if name in NOERR else ["const", "const", "pid", "stepto"]))
    nsub = draw(st.sampled_from([1, 1, 1, 2, 3]))
    subs = []
    for _ in range(nsub):
        s = dict(
            t0=draw(st.booleans()), t1=draw(st.booleans()),
            steps=draw(st.sampled_from([0, 0, 0, 1, 1, 2, 3, 5])),
            nts=draw(st.sampled_from([0, 0, 1, 2, 3, 5, 9])),
            fn=draw(st.sampled_from(["y", "y", "stat", "time"])),
        )
        if not (s["t0"] or s["t1"] or s["steps"] or s["nts"]):
            s["t1"] = True
        subs.append(s)
    container = draw(st.sampled_from(["list", "dict", "nested"]))
    inst = []
    for _ in range(draw(st.integers(2, 3))):
        inst.append(dict(
            seed=draw(seeds),
            direction=draw(st.sampled_from([1, 1, -1])),
            t0=draw(frac(-2, 2)), length=draw(frac(0.2, 3.0)),
            nsteps=draw(st.integers(1, 11)), off=draw(st.sampled_from([0.0, 0.3, 0.7])),
            # where to put the ts: fractions; or index of a step boundary
            tsk=draw(st.lists(
                st.tuples(st.sampled_from(["u", "u", "u", "step", "t0", "t1", "dup"]),
                          unit), min_size=9, max_size=9)),
        ))
    return dict(solver=name, ctrl=ctrl, d=draw(st.sampled_from([1, 2, 3])),
                tree=draw(st.booleans()), subs=subs, container=container,
                via_subs=draw(st.booleans()), tight=draw(st.integers(0, 3)) == 0,
                dense=draw(st.integers(0, 4)) == 0,
                zero_len=draw(st.integers(0, 9)) == 0, inst=inst)


def make_saveat(case, ts_list):
    subs = []
    for s, ts in zip(case["subs"], ts_list):
        kw = {} if FNS[s["fn"]] is None else dict(fn=FNS[s["fn"]])
        subs.append(dict(t0=s["t0"], t1=s["t1"], steps=s["steps"],
                         ts=None if ts is None else F(ts), **kw))
    if len(subs) == 1 and not case["via_subs"]:
        return dfx.SaveAt(dense=case["dense"], **subs[0])
    ss = [dfx.SubSaveAt(**k) for k in subs]
    c = case["container"]
    if c == "dict":
        tree = {f"k{i}": s for i, s in enumerate(ss)}
    elif c == "nested" and len(ss) > 1:
        tree = (ss[0], [tuple(ss[1:])])
    else:
        tree = ss
    return dfx.SaveAt(subs=tree, dense=case["dense"])


def check(case):
    name, tree, d = case["solver"], case["tree"] and case["d"] > 1, case["d"]
    s = solver(name)
    terms = terms_for(name, tree)
    evals = 0
    labels = [case["solver"], case["ctrl"]]
    max_steps = MAXS
    for k, ins in enumerate(case["inst"]):
        direction = ins["direction"]
        args = mk_args(ins["seed"], d)
        y0 = mk_y0(ins["seed"], d)
        y0 = to_tree(y0) if tree else y0
        t0 = ins["t0"]
        L = 0.0 if case["zero_len"] else ins["length"]
        t1 = t0 + direction * L
        n = ins["nsteps"]
        if case["ctrl"] == "const":
            dt0, sc = F(direction * ins["length"] / (n - 0.5 * ins["off"])), dfx.ConstantStepSize()
        elif case["ctrl"] == "pid":
            dt0, sc = F(direction * ins["length"] / n), pid(1e-3, 1e-4)
        else:
            if case["zero_len"]:
                return dict(nontrivial=False)
            # keep a fixed number of knots so the compiled program is shared
            r = rng(ins["seed"] + 5)
            g = np.concatenate([[0], np.cumsum(r.uniform(0.3, 1, 7))])
            ts = t0 + direction * L * g / g[-1]
            ts[0], ts[-1] = t0, t1
            dt0, sc = None, dfx.StepTo(ts=F(ts))
        with sut("baseline solve"):
            base = dfx.diffeqsolve(
                terms, s, F(t0), F(t1), dt0, y0, args, stepsize_controller=sc,
                saveat=dfx.SaveAt(t0=True, steps=True, dense=not case["zero_len"]),
                max_steps=MAXS, throw=False)
            base = jtu.tree_map(lambda x: x, base)
        if base.result != dfx.RESULTS.successful:
            continue
        bts = np.asarray(base.ts)
        nacc = int(base.stats["num_accepted_steps"])
        require(finite_count(bts) == nacc + 1,
                f"saved {finite_count(bts)} times for {nacc} accepted steps")
        bts = bts[: nacc + 1]
        bys = jtu.tree_map(lambda x: np.asarray(x)[: nacc + 1], base.ys)
        if case["tight"] and not case["zero_len"] and k == 0:
            ms = int(base.stats["num_steps"])
            if all(q["steps"] <= ms for q in case["subs"]):
                max_steps = ms
        if int(base.stats["num_steps"]) > max_steps:
            continue
        # the requested times
        ts_list = []
        for j, sub in enumerate(case["subs"]):
            if sub["nts"] == 0:
                ts_list.append(None)
                continue
            out = []
            for kind, u in ins["tsk"][: sub["nts"]]:
                u = (u + 0.37 * j) % 1.0
                if kind == "u":
                    v = t0 + (t1 - t0) * u
                elif kind == "step":
                    v = float(bts[int(u * nacc) if nacc else 0])
                elif kind == "t0":
                    v = t0
                elif kind == "t1":
                    v = t1
                else:
                    v = out[-1] if out else t0
                out.append(v)
            lo, hi = min(t0, t1), max(t0, t1)
            out = sorted([min(max(v, lo), hi) for v in out], reverse=direction < 0)
            ts_list.append(np.array(out))
        saveat = make_saveat(case, ts_list)
        with sut("solve with generated SaveAt"):
            sol = dfx.diffeqsolve(
                terms, s, F(t0), F(t1), dt0, y0, args, stepsize_controller=sc,
                saveat=saveat, max_steps=max_steps, throw=False)
        require(sol.result == dfx.RESULTS.successful,
                "solve fails merely because of what is saved")
        evals += 1

        def dense(t):
            if case["zero_len"]:
                return jtu.tree_map(lambda x: np.asarray(x), y0)
            if name in LININTERP:  # documented: local linear interpolation
                i = int(np.searchsorted(direction * bts, direction * t, side="left"))
                i = min(max(i, 1), nacc)
                w = (t - bts[i - 1]) / (bts[i] - bts[i - 1])
                return jtu.tree_map(lambda y: y[i - 1] + w * (y[i] - y[i - 1]), bys)
            return npt(base.evaluate(F(t)))

        def apply(fn, t, y):
            return y if FNS[fn] is None else npt(FNS[fn](t, y, args))

        is_sub = lambda x: isinstance(x, dfx.SubSaveAt)  # noqa: E731
        want_tree = saveat.subs
        got_ts = jtu.tree_leaves(sol.ts)
        struct = jtu.tree_structure(
            jtu.tree_map(lambda x: 0, want_tree, is_leaf=is_sub))
        require(jtu.tree_structure(sol.ts) == struct, "sol.ts structure differs from subs")
        got_ys = struct.flatten_up_to(sol.ys)
        for j, (sub, ts) in enumerate(zip(case["subs"], ts_list)):
            exp = []
            if sub["t0"]:
                exp.append((t0, jtu.tree_map(lambda x: x[0], bys), True))
            ptr = 0
            if case["zero_len"]:
                if ts is not None:
                    exp += [(t0, npt(y0), True)] * len(ts)
            else:
                for i in range(1, nacc + 1):
                    if ts is not None:
                        while ptr < len(ts) and direction * ts[ptr] <= direction * bts[i]:
                            exp.append((ts[ptr], dense(ts[ptr]), True))
                            ptr += 1
                    if sub["steps"] and i % sub["steps"] == 0:
                        exp.append((bts[i], jtu.tree_map(lambda x: x[i], bys), False))
                if ts is not None:
                    require(ptr == len(ts), "baseline did not reach the last ts")
            saved_last = sub["steps"] and nacc > 0 and nacc % sub["steps"] == 0
            if sub["t1"] and not saved_last:
                exp.append((t1, jtu.tree_map(lambda x: x[-1], bys), True))
            gts, gys = np.asarray(got_ts[j]), got_ys[j]
            fin = np.isfinite(gts)
            require(int(fin.sum()) == len(exp),
                    f"sub {j} {sub}: saved {int(fin.sum())} values at {gts}, expected "
                    f"{[float(e[0]) for e in exp]}")
            require(bool(np.all(fin[: len(exp)])), f"padding is not at the end: {gts}")
            for i, (t, y, exact) in enumerate(exp):
                if exact:
                    require(gts[i] == t, f"sub {j}: ts[{i}]={gts[i]!r}, expected {t!r}")
                else:
                    close(gts[i], t, f"sub {j} ts[{i}]", 1e-9, 1e-9)
                close(jtu.tree_map(lambda x: np.asarray(x)[i], gys), apply(sub["fn"], t, y),
                      f"sub {j} ys[{i}] (t={t})", 1e-7, 1e-7)
            for leaf in jtu.tree_leaves(gys):
                leaf = np.asarray(leaf)
                require(not np.any(np.isfinite(leaf[len(exp):])),
                        f"sub {j}: padding of ys contains finite values")
            if sub["steps"] == 0:
                require(len(gts) == len(exp), f"buffer length {len(gts)} without steps")
    if case["tight"]:
        labels.append("tight")
    if case["zero_len"]:
        labels.append("t0==t1")
    if any(i["direction"] < 0 for i in case["inst"]):
        labels.append("backward")
    return dict(nontrivial=evals > 0, evals=evals, labels=labels)


PARTS = [Part("saveat", strat, check, quick=150, thorough=300)]
