# One entry per property: see mkmeta.py
INT = "diffrax/_integrate.py"
prop("C01", "SaveAt returns exactly the requested outputs, in order, with fn applied",
 "For every combination of t0/t1/steps=n/ts/fn (single or a PyTree of sub-saves), step size controller, direction of time and solver, a successful solve returns precisely the values asked for: t0, then every requested ts and every n-th accepted step in time order, then t1 once, each with fn applied to the state of the very same numerical trajectory, and anything beyond is non-finite padding at the end. What is saved never changes the trajectory, nor the success of the solve.",
 ["inputs", "configurations"], "all SaveAt configurations, grids, solvers, directions, tight or loose max_steps, empty intervals",
 "Tests sample a handful of SaveAt combinations on one or two problems; interactions (steps=n with ts, duplicates, ts on step boundaries, sub-saves with fn, backward time, tight buffers) are not enumerated.",
 [INT, "diffrax/_saveat.py", "diffrax/_solution.py"],
 [("save logic in the main loop", INT + ": loop / _save"), ("buffer sizing", INT + ": diffeqsolve")],
 "random solver x controller x SaveAt tree (flags, steps=n, ts on/off step boundaries, duplicates, endpoints, fn) x problem x direction; oracle: list model evaluated over a full-trajectory baseline solve; non-trivial if at least one compared solve succeeded",
 "model-based oracle over generated SaveAt trees")

prop("C02", "Solving backwards in time equals solving the time-reflected problem forwards",
 "For every solver, controller, term kind (ODE, control, Brownian), event and SaveAt, solving from t0 to t1 with t1<t0 gives the same values, at negated times, as solving the problem reflected through t -> -t from -t0 to -t1: outputs, dense output, step locations, statistics and event decisions agree, and user callbacks always see true times.",
 ["inputs", "configurations"], "all problems, solvers, controllers, events and outputs with t1 < t0",
 "Backward-time tests cover a few ODE solves with loose tolerances; SDEs, events, jumps, clipping and dense output backwards are not tested in combination.",
 [INT, "diffrax/_term.py", "diffrax/_global_interpolation.py", "diffrax/_step_size_controller/clip.py", "diffrax/_step_size_controller/constant.py"],
 [("WrapTerm", "diffrax/_term.py"), ("direction handling", INT + ": diffeqsolve"), ("controller.wrap", "diffrax/_step_size_controller")],
 "random solver/controller/term/event configuration, solved backwards and as the hand-reflected forward problem; oracle: metamorphic equality of all outputs; non-trivial if the solve took >= 2 steps",
 "metamorphic time reflection")

prop("C03", "Dense output is consistent with the steps, the saved values and itself",
 "Dense output evaluated at any accepted step time gives the solution there, at any requested time gives exactly what SaveAt(ts=...) would have saved, is continuous across steps, its derivative is the derivative of what evaluate returns, evaluate(a,b) equals evaluate(b)-evaluate(a), and left limits only matter at step times; this holds for every solver, direction and PyTree of states. Evaluation outside of [t0,t1] is reported as NaN and never as a finite value.",
 ["inputs", "configurations"], "all solvers, step sequences, evaluation times, directions, state structures",
 "Tests check dense output for selected solvers at a few interior points with loose tolerance.",
 ["diffrax/_global_interpolation.py", "diffrax/_local_interpolation.py", "diffrax/_solution.py", INT],
 [("DenseInterpolation", "diffrax/_global_interpolation.py"), ("local interpolations", "diffrax/_local_interpolation.py and diffrax/_solver")],
 "random solver x steps x direction x state structure with generated evaluation times (step times, interior, duplicates, outside); oracle: saved values of the same trajectory, finite differences, additivity; non-trivial if >= 2 steps",
 "round-trip / differential against SaveAt")

prop("C04", "PID step-size control follows the documented PID law",
 "For any history of error estimates, the sequence of accepted and rejected steps and step sizes produced by an adaptive solve is exactly the one defined by the documented controller: a step is accepted iff the norm of error/(atol+rtol*max|y|) is below one (or it is already at the minimum step), step sizes change by safety*PID-factor clipped to [factormin,factormax] (never below 1 after an acceptance, never above safety after a rejection), dtmin/dtmax are honoured, force_dtmin=False fails with dt_min_reached, and NaN/inf error estimates always reject and shrink.",
 ["histories", "configurations"], "all sequences of error estimates (including zero, inf and NaN), all controller parameters, initial steps and orders",
 "Tests only check that solves succeed and hit a few step_ts; no test checks the controller law on arbitrary error histories.",
 ["diffrax/_step_size_controller/pid.py", INT],
 [("PIDController.adapt_step_size", "diffrax/_step_size_controller/pid.py"), ("error_order", "diffrax/_solver/base.py")],
 "random controller parameters x scripted solver whose error estimate is a generated function of the step (zeros, infs and NaNs injected); oracle: independent Python model of the controller plus loop; non-trivial if at least one rejection or clipping happened",
 "model-based testing with a scripted solver",
 assumptions=["cases in which a decision of the model lies within 1e-9 of its threshold are discarded"])

prop("C05", "Fixed-step controllers step on exactly the prescribed grid",
 "ConstantStepSize makes exactly ceil((t1-t0)/dt0) steps (up to rounding), ending at t0+dt0, t0+2*dt0, ... and the last, possibly shorter, one exactly at t1; StepTo visits exactly its ts, once each, in order, in either direction; neither accumulates rounding error nor depends on the vector field, and max_steps equal to the number of steps suffices.",
 ["inputs", "configurations"], "all t0, t1, dt0, grids, float32/float64, directions",
 "Tests try a few round step sizes; off-by-one steps appear only for particular floating point ratios.",
 ["diffrax/_step_size_controller/constant.py", INT],
 [("ConstantStepSize", "diffrax/_step_size_controller/constant.py"), ("StepTo", "diffrax/_step_size_controller/constant.py"), ("_clip_to_end", INT)],
 "random (t0, dt0, number of steps or fractional ratio, dtype, direction) and random StepTo grids; oracle: arithmetic model of the grid; non-trivial if >= 2 steps",
 "model-based testing of step grids")

prop("C06", "Clipping controllers hit step_ts, never straddle jump_ts, revisit rejections",
 "Under ClipStepSizeController (or step_ts/jump_ts of PIDController) every step_ts strictly inside the interval is the end of an accepted step, no attempted step ever contains a jump time in its closed interval, solving resumes immediately after each jump with the solver told about the jump, and with store_rejected_steps every rejected step end is later stepped to exactly (or max_steps_rejected is reported when the buffer is too small); steps are otherwise those of the wrapped controller.",
 ["histories", "inputs", "configurations"], "all sets of step/jump times (dense, duplicate, outside, adjacent to t0/t1), error histories, nestings and directions",
 "Tests use a few step/jump times on benign problems.",
 ["diffrax/_step_size_controller/clip.py", INT],
 [("ClipStepSizeController", "diffrax/_step_size_controller/clip.py")],
 "scripted solver with generated rejection histories, recording every attempt and accepted (t0,t1,made_jump), under random step_ts/jump_ts/store_rejected_steps; oracle: invariants over the recorded history; non-trivial if some step was clipped or rejected",
 "invariants over recorded step histories with a scripted solver")

prop("C07", "Steps tile the interval; statistics and max_steps are exact",
 "Accepted steps are contiguous, strictly monotone and tile [t0,t1] exactly; num_steps = accepted + rejected equals the number of steps really attempted; a solve that needs N steps succeeds with identical output for any max_steps >= N (or None) and stops with max_steps_reached (output of the first max_steps steps, t1 not claimed) for any smaller one.",
 ["inputs", "configurations", "histories"], "all problems, solvers, controllers and values of max_steps",
 "Tests check a single max_steps failure.",
 [INT, "diffrax/_solution.py", "diffrax/_adjoint.py"],
 [("loop", INT), ("outer while loop bound", "diffrax/_adjoint.py")],
 "random solver/controller/problem; unlimited run, then max_steps in {N-1, N, N+1, smaller, larger, None}, with steps counted independently by an instrumented solver; oracle: accounting identities and prefix equality; non-trivial if N >= 2",
 "metamorphic max_steps relations and accounting invariants")

prop("C08", "Runge-Kutta solvers have their documented order, error estimate and output",
 "Every Runge-Kutta solver of documented order p (explicit, diagonally implicit, IMEX) integrates every problem that its order conditions cover exactly up to rounding, for every schedule of step sizes, autonomous or not; its error estimate vanishes exactly on the problems of the lower order and not on the next; its dense output is exact on the lower-order problems the interpolant is designed for.",
 ["inputs", "programs", "histories"], "all rooted-tree problems up to order p (all colourings for IMEX), all step schedules",
 "Empirical convergence tests on a handful of problems (skipped in CI here) cannot distinguish a coefficient wrong in a tree not exercised by them.",
 ["diffrax/_solver/runge_kutta.py", "diffrax/_solver/tsit5.py", "diffrax/_solver/dopri5.py", "diffrax/_solver/dopri8.py", "diffrax/_solver/bosh3.py", "diffrax/_solver/kvaerno5.py", "diffrax/_solver/kencarp5.py", "diffrax/_solver/sil3.py"],
 [("Butcher tableaus", "diffrax/_solver/*.py"), ("AbstractRungeKutta.step", "diffrax/_solver/runge_kutta.py")],
 "random rooted trees (with random colourings, coefficients, time offsets and initial values) turned into polynomial systems with closed-form solution x random step schedules x solver; oracle: closed form; non-trivial if the tree has order >= 2 and >= 2 steps were made",
 "generated rooted-tree problems with exact solutions")

prop("C09", "Implicit solvers solve their stage equations, or say so",
 "An accepted step of an implicit or IMEX solver satisfies the method's defining implicit equations to the root finder's tolerance whatever the stiffness, stays bounded on arbitrarily stiff decaying problems for L-stable methods, and whenever the root find does not converge the step is either rejected and retried smaller (adaptive) or the solve reports a failure; a wrong value is never returned as success.",
 ["inputs", "configurations", "fault_sequences"], "all stiff/non-linear problems, step sizes, root finder tolerances and iteration limits",
 "Tests solve one or two stiff problems at fixed tolerances.",
 ["diffrax/_solver/runge_kutta.py", "diffrax/_solver/implicit_euler.py", "diffrax/_root_finder"],
 [("implicit stages", "diffrax/_solver/runge_kutta.py"), ("VeryChord", "diffrax/_root_finder/_verychord.py")],
 "random stiff linear/non-linear problems x solvers x root finders (Newton, VeryChord, starved iteration limits); oracle: reference DIRK step in NumPy from public tableaus, closed-form linear stability function, failure accounting; non-trivial if the stiffness |h*lambda| > 1 or a root find failed",
 "differential against a NumPy reference and fault injection in the root finder")

prop("C10", "A Brownian path is one consistent function of time",
 "For every key, shape, dtype, tolerance and Levy-area mode, VirtualBrownianTree evaluations are a deterministic function of the queried interval and are mutually consistent: increments (and time integrals derived from H and K) over adjacent intervals combine by Chen's relation exactly as those of a single path, W(t0)=0, swapping endpoints negates, results do not depend on the order or number of queries, jit or vmap; different PyTree leaves and keys are driven independently. UnsafeBrownianPath is deterministic per (key, interval).",
 ["inputs", "histories"], "all query histories, keys, shapes, tolerances, Levy-area kinds",
 "Tests check distributions with fixed intervals (and are skipped in CI here).",
 ["diffrax/_brownian/tree.py", "diffrax/_brownian/path.py", "diffrax/_term.py", "diffrax/_custom_types.py"],
 [("VirtualBrownianTree", "diffrax/_brownian/tree.py"), ("Levy area structures", "diffrax/_custom_types.py")],
 "random key, PyTree shape, tol, interval, Levy mode and random query histories; oracle: Chen's relation across generated partitions, antisymmetry, history independence; non-trivial if >= 3 distinct query times",
 "algebraic invariants over generated query histories")

prop("C11", "Brownian samples have the right joint distribution",
 "Across keys, (W,H,K) over any set of intervals (within a tree or from UnsafeBrownianPath) are jointly Gaussian with the exact Brownian covariance: W variance dt, H variance dt/12, K variance dt/720, all mutually independent, disjoint intervals and different components independent, and nested intervals correlated as for a true Brownian motion.",
 ["inputs", "configurations"], "all interval layouts, tolerances, shapes and Levy-area modes, over random keys",
 "The statistical tests are few, fixed-interval and skipped in CI here.",
 ["diffrax/_brownian/tree.py", "diffrax/_brownian/path.py"],
 [("bridge sampling", "diffrax/_brownian/tree.py"), ("UnsafeBrownianPath", "diffrax/_brownian/path.py")],
 "random layouts of intervals (random and dyadic end points, adversarially close) x many keys; oracle: exact covariance, z-scores with threshold 6.5 sigma; non-trivial if the layout has >= 2 intervals",
 "statistical property over generated layouts",
 note="Statistical: fixed seeds, thresholds >= 6.5 sigma.")

prop("C12", "Terms combine linearly: vf, contr, prod and vf_prod agree for every term kind",
 "For every term kind (ODE, control given as path or function, weakly diagonal, multi-term, underdamped Langevin) vf_prod equals prod of vf with the control, prod is linear in the control, contr over adjacent intervals is additive for path controls, MultiTerm is the sum of its parts, ControlTerm.to_ode is the ODE driven by the control's derivative, and solving a control term driven by a path is the controlled equation (dt as control reproduces the ODE).",
 ["inputs", "programs"], "all vector fields, controls, PyTree structures and intervals",
 "Tests check one example of each kind.",
 ["diffrax/_term.py"],
 [("AbstractTerm and subclasses", "diffrax/_term.py")],
 "random PyTree-structured vector fields/controls (arrays, Lineax operators, callables) per term kind; oracle: NumPy evaluation of the definition plus algebraic laws; non-trivial if the control is multi-dimensional or multi-leaf",
 "algebraic laws and NumPy reference")

prop("C13", "Gradients are the derivatives of the computed solution under every adjoint",
 "Derivatives of any saved output with respect to initial value, parameters and times through a solve agree between reverse mode (recursive checkpointing with any number of checkpoints), direct, forward mode and finite differences to rounding error; continuous adjoints (backsolve, implicit at steady state) agree to discretisation tolerance.",
 ["inputs", "configurations"], "all problems, outputs, solvers, SaveAt kinds and adjoints",
 "Tests compare a few gradients on one problem.",
 ["diffrax/_adjoint.py", INT],
 [("adjoints", "diffrax/_adjoint.py")],
 "random problem x solver x SaveAt x adjoint; oracle: central finite differences / closed-form linearisation and cross-adjoint agreement; non-trivial if the gradient is non-zero and >= 2 steps",
 "differential between adjoints and finite differences")

prop("C14", "Batching with vmap does not change any individual solve",
 "Vectorising diffeqsolve with vmap over any subset of initial values, parameters, times, step sizes, tolerances, saveat times, event thresholds or keys gives for each batch element exactly the outputs, statistics, results and event decisions (to rounding) of solving that element alone, however differently the elements step, finish, fail or trigger.",
 ["inputs", "schedules", "configurations"], "all batches and all combinations of mapped inputs",
 "Tests check vmap on a couple of mapped arguments with SaveAt(t1).",
 [INT, "diffrax/_event.py", "diffrax/_step_size_controller", "diffrax/_solver"],
 [("loop state masking under vmap", INT)],
 "random batch (size 2-4) with random subset of mapped inputs x solver x controller x SaveAt x event; oracle: per-element solve; non-trivial if elements take different numbers of steps or differ in result",
 "differential batch vs element")

prop("C15", "A solve split at a step and restarted from saved states is the same solve",
 "Stopping a solve at any accepted step and restarting from the saved solver, controller and jump state yields the same remaining steps and values as never stopping, for every solver and controller; likewise integrating over adjacent intervals composes.",
 ["crash_points", "histories"], "all split points, solvers, controllers",
 "One test restarts one solver at one point.",
 [INT, "diffrax/_solution.py", "diffrax/_saveat.py"],
 [("solver_state/controller_state/made_jump", INT)],
 "random solver/controller/problem and every split point of a generated trajectory sampled; oracle: uninterrupted solve; non-trivial if split strictly inside with >= 2 steps on one side",
 "metamorphic split/restart")

prop("C16", "Events stop the solve at the first triggered condition, correctly located",
 "With an Event, the solve ends at the first accepted step at which some condition triggers (boolean true, or sign change in the requested direction), result and event mask name precisely one triggered condition (first in order), and if a root finder is given the final time lies inside that step with the condition zero to tolerance at the returned state; outputs are those of the event-free solve before the final time and nothing finite after it, and if nothing triggers the solve is identical to the event-free one.",
 ["inputs", "histories", "configurations"], "all condition functions, directions, PyTrees of events, SaveAt kinds, solvers and controllers",
 "Tests check single thresholds on simple problems.",
 [INT, "diffrax/_event.py"],
 [("event handling in loop", INT), ("steady_state_event", "diffrax/_event.py")],
 "random PyTrees of boolean/real events with random thresholds/directions x SaveAt x solver x controller; oracle: scan of the event-free trajectory and re-evaluation of the condition at the returned state; non-trivial if an event triggered strictly inside",
 "model-based scan of the event-free trajectory")

prop("C17", "Failures are always reported and never returned as success",
 "A solve returns result successful only if it reached t1 with every accepted step successful; exhausted max_steps, non-finite steps rejected forever, dtmin violations, failed root finds and too many rejections each report their own result code, throw=True raises exactly when the result is not successful (or event), and outputs saved before the failure are still those of the trajectory.",
 ["fault_sequences", "inputs"], "all points at which a failure is injected, all failure kinds, throw or not",
 "Tests inject a single failure each.",
 [INT, "diffrax/_solution.py"],
 [("RESULTS propagation", INT), ("is_okay/is_successful", "diffrax/_solution.py")],
 "scripted solver/controller/vector field which fail at a generated step with a generated kind; oracle: expected result code, prefix equality; non-trivial if the failure happened after the first step",
 "fault injection with a result-code model")

prop("C18", "Results do not depend on how the state is packaged, and preserve its dtype",
 "Packaging the same numbers as any PyTree (nested containers, scalars, different leaf shapes, empty leaves) yields the same numbers in the same package for every solver, output and control kind; output structure, shape and dtype match the input state, float32/float64/complex are respected, and component-wise independent problems do not influence each other under fixed steps.",
 ["inputs", "configurations"], "all PyTree structures and dtypes",
 "Tests use one or two structures.",
 [INT, "diffrax/_solver", "diffrax/_term.py", "diffrax/_local_interpolation.py"],
 [("tree_map-based arithmetic", "diffrax/_solver"), ("dtype promotion", INT)],
 "random PyTree packaging/dtype of random problems x solver x SaveAt; oracle: flat-vector solve; non-trivial if >= 2 leaves or a non-default dtype",
 "metamorphic repackaging")

prop("C19", "Interpolation utilities interpolate: data, limits, fills and derivatives",
 "For all strictly increasing ts and (PyTree, partially NaN) ys, linear, rectilinear and backward-Hermite interpolation fill missing data as documented, reproduce every non-missing observation, interpolate linearly/cubically in between, respect left/right limits, replace missing initial values, and their derivative and increments are those of the interpolant.",
 ["inputs"], "all times, values, NaN patterns, channel layouts",
 "Tests use a few fixed arrays (one file is skipped in CI here).",
 ["diffrax/_global_interpolation.py"],
 [("linear_interpolation etc.", "diffrax/_global_interpolation.py")],
 "random ts/ys with random NaN patterns (leading, trailing, interior, all) and options; oracle: direct Python model; non-trivial if some value is missing",
 "reference model in Python")

prop("C20", "Invalid configurations are rejected with an error, valid ones accepted",
 "Every documented misuse (saveat times unsorted or out of range, dt0 of wrong sign, missing dt0, adaptive stepping without error estimate, wrong term structure for a solver, StepTo not matching t0/t1, events with bad outputs, unsuited Brownian path or Levy area, invalid SaveAt, max_steps with incompatible outputs) raises an error rather than returning numbers, while the nearby valid configuration is accepted.",
 ["inputs", "configurations"], "all perturbations of valid configurations into invalid ones",
 "Tests check a few error paths.",
 [INT, "diffrax/_saveat.py", "diffrax/_step_size_controller", "diffrax/_term.py", "diffrax/_brownian/tree.py"],
 [("argument checks", INT + ": diffeqsolve")],
 "random valid configuration and a random documented invalidating mutation; oracle: valid accepted, invalid raises; every case is non-trivial",
 "mutation of valid configurations")

prop("C21", "Progress meters report true, monotone progress and finish",
 "For every solve, progress meters are told fractions in [0,1] that never decrease and equal the fraction of the interval accepted so far, start at 0 and end at the fraction reached, and printing honours minimum_increase; using a meter never alters the results.",
 ["inputs", "schedules"], "all problems, controllers, directions, minimum_increase settings, early stops and batches",
 "One test greps the printed text of one solve.",
 ["diffrax/_progress_meter.py", INT],
 [("progress meters", "diffrax/_progress_meter.py")],
 "random solves with text meters and recording meters; oracle: fractions recomputed from the accepted steps; non-trivial if >= 2 steps",
 "invariants over recorded progress histories")

prop("C22", "SDE solvers implement their documented scheme and convention",
 "For every SDE solver, a step driven by any (dt, W, H, ...) satisfies the stochastic Taylor conditions of its documented order and calculus (Ito or Stratonovich), one-step schemes equal their defining formula, additive/commutative/general noise restrictions are as documented, error estimates are finite, and fixed-path refinement converges at the documented strong order.",
 ["inputs", "histories"], "all drifts, diffusions (additive, commutative, general), noise dimensions, paths and step schedules",
 "SDE tests are few and skipped in CI here.",
 ["diffrax/_solver/srk.py", "diffrax/_solver/milstein.py", "diffrax/_solver/euler_heun.py", "diffrax/_solver/euler.py", "diffrax/_solver/shark.py", "diffrax/_solver/sra1.py", "diffrax/_solver/slowrk.py", "diffrax/_solver/spark.py", "diffrax/_solver/sea.py", "diffrax/_solver/shark_general.py"],
 [("AbstractSRK.step", "diffrax/_solver/srk.py"), ("Milstein corrections", "diffrax/_solver/milstein.py")],
 "random drift/diffusion problems with given driving increments; oracle: closed-form stochastic Taylor terms, NumPy one-step reference formulas; non-trivial if the noise is non-zero and multi-step",
 "generated problems with closed-form solutions / reference formulas")

prop("C23", "Underdamped Langevin solvers integrate Langevin dynamics at their order",
 "ALIGN, ShOULD and QUICSORT applied to underdamped Langevin dynamics with any friction, temperature parameter, potential, PyTree of states and step schedule agree with the exact solution of linear problems and with each other to their documented order along the same Brownian path, uniformly for small and large h*gamma; components with different coefficients do not mix.",
 ["inputs", "histories"], "all gamma, u, potentials, step sizes, state structures",
 "Langevin tests are skipped in CI here.",
 ["diffrax/_solver/foster_langevin_srk.py", "diffrax/_solver/align.py", "diffrax/_solver/should.py", "diffrax/_solver/quicsort.py", "diffrax/_term.py"],
 [("AbstractFosterLangevinSRK.step", "diffrax/_solver/foster_langevin_srk.py")],
 "random gamma/u/potential/PyTree/step schedule; oracle: closed-form solution for a linear force given W,H,K, Taylor vs direct coefficients, order of agreement; non-trivial if gamma*h spans both branches",
 "differential against closed-form and refined solutions")

prop("C24", "Symplectic and reversible solvers keep their structure",
 "SemiImplicitEuler, ReversibleHeun and LeapfrogMidpoint implement their defining recurrences for every step schedule; the reversible solvers run backwards from the final solver state recover the initial state to rounding, and the symplectic map preserves area.",
 ["inputs", "histories"], "all vector fields, step schedules, state structures",
 "Tests run each solver on one problem.",
 ["diffrax/_solver/semi_implicit_euler.py", "diffrax/_solver/reversible_heun.py", "diffrax/_solver/leapfrog_midpoint.py"],
 [("step functions", "diffrax/_solver")],
 "random problems and step grids; oracle: NumPy recurrences, backward reconstruction, Jacobian determinant; non-trivial if >= 2 steps",
 "reference recurrences and round trips")

prop("C25", "Observers and differentiation settings do not change the solution",
 "The returned solution does not depend on the choice of adjoint (or number of checkpoints), on throw, on max_steps being bounded or not, on progress meters, on extra requested outputs, or on being called under jit, grad or vmap; repeated identical calls agree.",
 ["configurations", "inputs"], "all pairs of configurations differing only in such a setting",
 "Tests fix these settings.",
 [INT, "diffrax/_adjoint.py", "diffrax/_progress_meter.py"],
 [("adjoint.loop", "diffrax/_adjoint.py")],
 "random solve plus a random non-semantic setting change; oracle: equality of all outputs; non-trivial if >= 2 steps",
 "metamorphic invariance")

prop("C26", "HalfSolver is step doubling of its inner solver",
 "HalfSolver(s) advances by two half steps of s, estimates its error as the absolute difference to one full step, and works as such for any wrapped solver, controller, PyTree, direction and Brownian control.",
 ["inputs", "configurations"], "all wrapped solvers and step schedules",
 "One test uses HalfSolver on one problem.",
 ["diffrax/_solver/base.py"],
 [("HalfSolver", "diffrax/_solver/base.py")],
 "random wrapped solver, problem and grid; oracle: the wrapped solver run on the half-step grid, error read off through a recording controller; non-trivial if >= 2 steps",
 "differential against the wrapped solver on a refined grid")

BUILT = {f"C{i:02d}" for i in range(1, 15)}
for p in P:
    p["claimed"] = p["id"] in BUILT
