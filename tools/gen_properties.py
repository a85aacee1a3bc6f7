#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **kw))
    P.append(d)

S = "diffrax/_solver/"
p("C01", "Every Runge-Kutta method satisfies the order conditions of its declared order",
  "For every built-in Runge-Kutta solver (explicit, diagonally implicit and implicit-explicit), the coefficients that advance the solution satisfy every Butcher order condition up to the order the solver declares, for additive methods including all conditions that couple the two parts. Stage times equal the row sums of the stage coefficients, and the structural facts the stepping code relies on (zero or constant implicit diagonal, last stage equal to the solution where claimed) are true of the coefficients. Hence one step on any sufficiently smooth problem has local error of one order more than the declared order.",
  ["inputs", "configurations"], "for every built-in Runge-Kutta solver, and every smooth vector field (the order conditions are exactly the quantification over all smooth vector fields)",
  "A convergence test samples one or two vector fields at a few step sizes; a wrong coefficient that only enters a high-order elementary differential (or a coupling condition of an additive method) is invisible on linear or autonomous problems. In the reliable test set no convergence test runs at all.",
  [S+"bosh3.py", S+"dopri5.py", S+"dopri8.py", S+"tsit5.py", S+"heun.py", S+"midpoint.py", S+"ralston.py", S+"kvaerno3.py", S+"kvaerno4.py", S+"kvaerno5.py", S+"kencarp3.py", S+"kencarp4.py", S+"kencarp5.py", S+"sil3.py", S+"runge_kutta.py"],
  [("Butcher tableau class attributes and order()", "each solver module; ButcherTableau / MultiButcherTableau in runge_kutta.py")])
p("C02", "Embedded error estimates are consistent and of the order adaptivity assumes",
  "For every solver that reports a local error, the estimate is the difference between the propagated solution and a second consistent solution whose order is exactly the one the method pairs with, so that it vanishes for constant solutions and shrinks at the rate the step size controller is told. The rate reported to the controller is the declared order for deterministic problems and the strong order plus one half for stochastic ones. Solvers without an embedded method report no error rather than a zero one.",
  ["inputs", "configurations"], "for every adaptive built-in solver, every vector field, and both deterministic and stochastic problems",
  "Whether an error estimate has the right order is a statement about all smooth vector fields; tests check that adaptive solves finish, which an inconsistent estimate also does.",
  [S+"base.py", S+"runge_kutta.py", S+"tsit5.py", S+"dopri5.py", S+"dopri8.py", S+"kvaerno5.py", S+"kencarp4.py", S+"srk.py"],
  [("b_error row of the tableau, error_order, HalfSolver Richardson estimate", "runge_kutta.py, base.py, srk.py")])
p("C03", "Dense output interpolates each step: exact at both ends and of stated order",
  "For every solver, evaluating dense output at the start or end of an accepted step returns exactly the solver's value there, so the dense solution is continuous across steps. Between the ends the interpolant reproduces the stages to the polynomial order that the method provides, and the increment between two times equals the difference of the two evaluations.",
  ["inputs", "configurations"], "for every solver, every step (t0, t1), every state structure and every evaluation time in the step",
  "Existing interpolation tests are statistical comparisons on one problem and are not in the reliable set; an interpolant coefficient error that keeps the end values right is below their tolerance.",
  ["diffrax/_local_interpolation.py", S+"dopri5.py", S+"dopri8.py", S+"tsit5.py", S+"kencarp3.py", S+"kencarp4.py", S+"kencarp5.py"],
  [("local interpolation classes and their coefficient tables", "the files above")])
p("C04", "A Runge-Kutta step computes exactly the method its coefficients define",
  "For any tableau, term structure and step, each stage is evaluated at the stage time and at the start value plus the coefficient-weighted sum of earlier stage increments (plus the implicit diagonal part for implicit stages), and the end value, error estimate and dense information are the corresponding weighted sums. A stage value carried over from the previous step is reused only if that step was not the first and no jump intervened. If an implicit stage fails to converge the step reports failure and an infinite error.",
  ["inputs", "histories", "configurations"], "for all tableaus, vector fields, step histories and jump patterns",
  "Tests exercise a handful of solvers on smooth problems; stale-stage reuse after a jump, wrong stage times or wrong tableau rows only show up for particular histories, non-autonomous terms or additive methods.",
  [S+"runge_kutta.py"],
  [("stage loop, first-same-as-last reuse, implicit solve", "AbstractRungeKutta.step/init/_common and _implicit_relation_*")])
p("C05", "The remaining solvers advance the state by their published update rule",
  "Euler, Euler-Heun, implicit Euler, leapfrog-midpoint, reversible Heun, semi-implicit Euler, the two Milstein schemes and the step-halving wrapper each return exactly the update their definition prescribes, evaluated at the right times and with the right increments, together with matching carried-over state. The Itô Milstein scheme contains the Itô correction and the Stratonovich one does not.",
  ["inputs", "histories"], "for all terms, states, step endpoints and step histories",
  "Update rules quantify over every vector field, noise and step; the tests that compare against references for these solvers are sampled and most are not in the reliable set.",
  [S+"euler.py", S+"euler_heun.py", S+"implicit_euler.py", S+"leapfrog_midpoint.py", S+"reversible_heun.py", S+"semi_implicit_euler.py", S+"milstein.py", S+"base.py"],
  [("step/init/func methods of each solver", "the files above")])
p("C06", "Stochastic Runge-Kutta methods meet their strong-order conditions",
  "Each built-in stochastic Runge-Kutta solver's coefficients satisfy the order conditions for the strong order it declares for the noise types it accepts, and its deterministic part has at least the order declared for ordinary differential equations. The step evaluates each stage with exactly those coefficients for drift, Brownian increment and Lévy areas, and skips a stage evaluation only if nothing uses it.",
  ["inputs", "configurations"], "for every built-in stochastic Runge-Kutta solver, all smooth drifts and diffusions of the accepted type and all Brownian samples",
  "Strong order is an expectation over paths and a statement over all vector fields; the sampled statistical tests are too slow and are not in the reliable set.",
  [S+"srk.py", S+"sra1.py", S+"shark.py", S+"shark_general.py", S+"slowrk.py", S+"spark.py", S+"sea.py"],
  [("StochasticButcherTableau and AbstractSRK.step", "srk.py and the solver modules")])
p("C07", "Underdamped Langevin solvers use exact linear-flow coefficients at all steps",
  "For every step size, friction and preset the coefficients used by the underdamped Langevin solvers are the exact integrals of the damped linear flow, whichever of the two internal evaluation strategies (series for small steps, closed form otherwise) is selected, so that switching between them never changes the method. The step combines position, velocity, force and noise with exactly these coefficients.",
  ["inputs", "configurations"], "for all step sizes, frictions (scalar, vector or structured) and inverse masses",
  "The series is only selected below a threshold and the two strategies agree to rounding where they meet, so tests that sample a few step sizes see neither a wrong high-order series coefficient nor a wrong cross term. None of these tests is in the reliable set.",
  [S+"foster_langevin_srk.py", S+"align.py", S+"should.py", S+"quicsort.py", "diffrax/_term.py"],
  [("_directly_compute_coeffs_leaf / _tay_coeffs_single / _compute_step", "the files above")])
p("C08", "Virtual Brownian tree samples have the exact joint law of Brownian motion",
  "At every query time, and for every choice of Lévy area, the sampled path value (with its space-time and space-time-time areas) has exactly the mean and covariance of Brownian motion conditioned on the coarser values already fixed, at every level of the tree and inside the final interval. Rescaling to the user's interval multiplies times by the length and noise by its square root.",
  ["inputs", "configurations"], "for all intervals, query times, tree depths and Lévy area types",
  "A distribution cannot be decided from finitely many samples: a conditional variance off by a few percent at some depth passes statistical tests; these are not in the reliable set anyway.",
  ["diffrax/_brownian/tree.py", "diffrax/_brownian/path.py"],
  [("midpoint bridge, final interpolation, denormalisation", "VirtualBrownianTree._brownian_arch, _evaluate_leaf, _denormalise_bm_inc")])
p("C09", "Brownian paths are reproducible, additive, and never reuse randomness",
  "A Brownian path is a deterministic function of its key and query times, increments over adjacent intervals add up (with areas combining by Chen's relation), and evaluating outside the declared interval is an error. No random key is consumed twice or shared between leaves, levels or components, so all draws that must be independent are.",
  ["inputs", "histories"], "for all keys, query sequences, state structures and Lévy area types",
  "Reuse of a key correlates draws that no sampled unit test compares; additivity is checked for a few intervals of one structure.",
  ["diffrax/_brownian/tree.py", "diffrax/_brownian/path.py", "diffrax/_misc.py"],
  [("key splitting discipline, _levy_diff, linear_rescale, range check", "tree.py, path.py, _misc.split_by_tree")])
p("C10", "Adaptive step control accepts iff within tolerance and bounds every step change",
  "A step is accepted exactly when its scaled error is below one (or the minimum step forces it), every rejected step is retried from the same start with a strictly smaller step, and after every step the new step size is the old one times a factor confined to the configured limits and then clipped to the configured minimum and maximum. A non-finite error never leads to acceptance or to a non-finite step size, and the step-size choice carries no gradient.",
  ["inputs", "histories", "configurations"], "for all error estimates (including zero, infinite and NaN), tolerances, controller coefficients and step histories",
  "The law is over all error histories and coefficient settings; tests run a few solves where the clamps and special cases rarely bind.",
  ["diffrax/_step_size_controller/pid.py", "diffrax/_step_size_controller/base.py"],
  [("adapt_step_size / init / _select_initial_step", "PIDController")])
p("C11", "Clipped stepping lands exactly on requested times and restarts after jumps",
  "With requested step times or jump times, no accepted step passes over one of them: the step is shortened to end at it exactly (for jumps, at the representable time just before, resuming just after), and a jump is reported to the solver exactly then. Rejected step times are revisited when asked for, and the times are handled identically for integration in either direction.",
  ["inputs", "histories", "configurations"], "for all sets of step times and jump times, inner controllers, and accept/reject histories",
  "Order of accept/reject outcomes around each requested time is combinatorial; tests cover a few fixed grids.",
  ["diffrax/_step_size_controller/clip.py"],
  [("index bookkeeping, clip to step_ts / jump_ts, rejected-step buffer", "ClipStepSizeController and helpers")])
p("C12", "Fixed-step controllers take exactly the prescribed steps",
  "With a constant step size every step has that size until the final one, which ends at the final time and may be shorter, and with prescribed step locations the solver visits exactly those locations in order; neither ever rejects a step or reports a jump. Missing or inconsistent step sizes (none given, prescribed locations not matching the interval, or not increasing in the direction of integration) are refused.",
  ["inputs", "configurations"], "for all step sizes, prescribed grids, intervals and directions",
  "Off-by-one and direction errors depend on grid length and sign, which tests sample sparsely.",
  ["diffrax/_step_size_controller/constant.py"],
  [("init / adapt_step_size / wrap", "ConstantStepSize, StepTo")])
p("C13", "Rejected steps leave no trace; accepted steps advance all state together",
  "After a rejected step the solution, solver state, jump flag, saved output and dense output are exactly what they were before the attempt, and after an accepted step all of them correspond to the same new time. Step counts always satisfy attempted = accepted + rejected, time never passes the end time, and integration ends exactly at the end time.",
  ["histories", "inputs", "configurations"], "for every accept/reject history, solver, controller and save configuration",
  "A value that leaks from a rejected step only matters for histories with rejections at particular places (next to a jump, a saved time or the end), which sampled solves rarely contain and whose effect is below test tolerances.",
  ["diffrax/_integrate.py"],
  [("the per-step state transition", "loop.body_fun_aux, _clip_to_end, cond_fun")])
p("C14", "Saved output is exactly what was requested, in order, from the right step",
  "Each requested save (initial value, final value, given times, every n-th accepted step, dense output, any number of independent sub-requests) appears exactly once, in time order, with the user's function applied to the matching time, state and arguments; values at given times come from the step containing that time. Unused output slots are infinite padding after the last saved value, output is large enough for the maximum number of steps, and a solve over an empty interval returns the initial value for every request.",
  ["inputs", "histories", "configurations"], "for all combinations of save requests, step histories and maximum step counts",
  "The combinations of save kinds with step histories, empty intervals, early termination and sub-sampled steps are far beyond the sampled ones.",
  ["diffrax/_integrate.py", "diffrax/_saveat.py"],
  [("save_t0, save_ts_impl, save_steps, _save_t1, _save, _allocate_output, unsave", "_integrate.py"), ("SubSaveAt/SaveAt constructors", "_saveat.py")])
p("C15", "Events stop the solve at the first triggering step, with one event flagged",
  "A boolean condition stops the solve at the first step after which it is true, and a real-valued condition at the first step across which it changes sign in the requested direction; each condition sees the current time, state and arguments. At most one condition is flagged, with a root finder the final time is sought within the last step and nothing later than it is kept as output, and without one the solve ends at the end of that step.",
  ["inputs", "histories", "configurations"], "for all condition functions and structures, directions, step histories and save requests",
  "Simultaneous triggers, zero-valued conditions, direction filters and interaction with saving multiply; tests sample a few examples.",
  ["diffrax/_integrate.py", "diffrax/_event.py"],
  [("event evaluation, mask, root find, unsave", "loop and diffeqsolve in _integrate.py; Event, steady_state_event in _event.py")])
p("C16", "Integrating backwards in time is the exact mirror of integrating forwards",
  "When the end time precedes the start time, the solver, controller, save requests, save functions, controls and dense output all see and report the user's own times: the solve equals the forward solve of the time-reversed problem, with user callables given real times and outputs given in real times. Every time-like input is converted once and every time-like output is converted back once.",
  ["inputs", "configurations"], "for all problems, time-like arguments and directions of integration",
  "Every time-like quantity needs the sign treatment; tests run backwards for a few configurations only.",
  ["diffrax/_integrate.py", "diffrax/_term.py", "diffrax/_global_interpolation.py", "diffrax/_step_size_controller/clip.py", "diffrax/_step_size_controller/constant.py"],
  [("direction normalisation and WrapTerm", "diffeqsolve, WrapTerm, DenseInterpolation, AbstractStepSizeController.wrap")])
p("C17", "No solve failure is silent: the first failure is reported and raised on request",
  "If a nonlinear solve fails to converge on an accepted step, the minimum step size is hit, the step limit or the rejected-step store is exhausted, the returned result names the first such failure and never success, and an exception is raised unless the user opted out. A failed or NaN step is treated as infinitely inaccurate so that adaptive control retries it, and success is reported only if the end time (or an event) was reached.",
  ["inputs", "histories", "fault_sequences"], "for all sequences of step failures, limits and controllers",
  "Failures have to be provoked at particular points of the history and in combination; tests provoke a few one at a time.",
  ["diffrax/_integrate.py", "diffrax/_solution.py", S+"runge_kutta.py", S+"implicit_euler.py", S+"base.py", "diffrax/_step_size_controller/pid.py", "diffrax/_step_size_controller/clip.py"],
  [("RESULTS propagation, update_result, error_if(throw)", "_solution.py, _integrate.py and every producer of a result")])
p("C18", "Ill-posed or incompatible problems are refused before any stepping",
  "A step size of the wrong sign, complex times, unordered or out-of-range save times, terms that do not match the solver, non-reusable noise with adaptive steps or backpropagation, Euler with adaptive steps on a stochastic problem, implicit solvers without tolerances, unbounded output requests and malformed events, save requests, paths or interpolation data each raise an error on every route, and well-posed problems do not. Checks run before the first step and apply to every leaf of structured input.",
  ["inputs", "configurations"], "for all argument combinations of the public entry points",
  "Each guard has many bypass routes (structured terms, wrapped controllers, sub-requests); tests check one spelling of each.",
  ["diffrax/_integrate.py", "diffrax/_heuristics.py", "diffrax/_adjoint.py", "diffrax/_saveat.py", "diffrax/_event.py", "diffrax/_global_interpolation.py", "diffrax/_brownian/path.py", "diffrax/_brownian/tree.py", "diffrax/_typing.py"],
  [("guards (raise / error_if) and their conditions", "the files above")])
p("C19", "Term algebra: products, sums, wrapping and adjoints of terms are consistent",
  "For every term type the fused vector-field/control product equals the product of the separately evaluated vector field and control, a combined term is the sum of its parts, controls over an interval are the control path's increments (or the derivative times the elapsed time when converted to an ordinary differential equation), and the adjoint term is the exact negated vector-Jacobian product of the term it wraps.",
  ["inputs", "programs"], "for all vector fields, controls, state structures and intervals",
  "Solvers choose the fused or the separate form depending on configuration, so a mismatch shows only for particular solver/term pairs.",
  ["diffrax/_term.py"],
  [("vf / contr / prod / vf_prod of each AbstractTerm subclass", "_term.py")])
p("C20", "Path interpolation passes through its data, with matching derivative",
  "Linear, rectilinear and cubic (backward-Hermite) interpolation pass through every observed value, evaluate the stated formula on the interval containing the query (left- or right-limit as asked), have derivative equal to the derivative of what is evaluated, and return increments equal to differences of evaluations. Missing observations are filled exactly as documented from neighbouring observed values only, with the documented treatment at the start and end.",
  ["inputs"], "for all data, time grids, missing-data patterns, query times and state structures",
  "Missing-data patterns are combinatorial and formulas quantify over all data; interpolation tests are not in the reliable set.",
  ["diffrax/_global_interpolation.py", "diffrax/_misc.py", "diffrax/_path.py"],
  [("evaluate/derivative/_interpret_t, scans filling NaNs, Hermite coefficients", "_global_interpolation.py")])
p("C21", "Adjoint choice never changes the solution nor silently corrupts gradients",
  "Every adjoint method runs the same forward integration with the same arguments, so the returned solution does not depend on it. Combinations an adjoint cannot differentiate are refused or marked non-differentiable, never silently given zero or partial gradients, and the continuous adjoint integrates back through every saved time in turn, adding each output's cotangent exactly once.",
  ["inputs", "configurations", "programs"], "for all adjoints, save configurations, terms and solvers",
  "Gradients are compared on a few problems; which values are blocked, passed or accumulated for a given save pattern is a matter of all paths through the code.",
  ["diffrax/_adjoint.py"],
  [("loop implementations, nondifferentiable barriers, _loop_backsolve_bwd", "_adjoint.py")])
p("C22", "Implicit stages are accepted only when converged to the requested tolerances",
  "The built-in chord iteration takes Newton steps with a fixed linearisation, declares success only when its iterate changed by a small fraction of the tolerances scaled by magnitude (its contraction estimate says so, or it no longer changes beyond rounding error), declares failure on divergence or non-finite values, and otherwise continues. Tolerances and norm left unspecified are taken from the adaptive controller and explicitly given ones are left alone.",
  ["inputs", "histories", "configurations"], "for all iterates, tolerances, norms and linearisations",
  "Convergence decisions depend on the whole iteration history; end-to-end tests only see that solves succeed.",
  ["diffrax/_root_finder/_verychord.py", "diffrax/_root_finder/_with_tols.py", "diffrax/_integrate.py"],
  [("VeryChord.init/step/terminate, _get_tols", "the files above")])
p("C23", "Progress meters are thread-safe, update once per step and are always closed",
  "All shared host-side meter state is accessed only under its lock, each meter is registered on creation, reported the progress of the slowest batch element as a fraction of the interval in zero to one, and closed and forgotten exactly once at the end of the solve. Reporting never changes the numerical solution, and a report arriving for a meter that is already closed is ignored.",
  ["schedules", "histories"], "for all interleavings of host callbacks from concurrent solves, and all batches",
  "Interleavings of callbacks from concurrent solves are not controllable from unit tests.",
  ["diffrax/_progress_meter.py", "diffrax/_integrate.py"],
  [("_ProgressMeterManager lock and registry; init/step/close calls", "_progress_meter.py, loop and diffeqsolve")])
p("C24", "A solve can be split and resumed: returned state is the state to continue from",
  "For a solve that ran to its end time, the solver state, controller state and jump flag returned on request are those belonging to that time, and passing them to a following solve uses them in place of fresh initial state, with nothing else recomputed or discarded. When they are not passed, initial state is built from the initial time, state and first step.",
  ["histories", "configurations"], "for all split points, solvers and controllers",
  "Splitting at arbitrary points, in combination with jumps and rejections, is sampled at one or two points only.",
  ["diffrax/_integrate.py"],
  [("solver_state/controller_state/made_jump plumbing", "diffeqsolve; State in loop")])
p("C25", "A problem solved inside a batch gives what it would give alone",
  "For any solve mapped over a batch (jax.vmap), the result for one element - final state, saved values, statistics, events and their masks, step and controller state, dense output - does not depend on the other elements of the batch. The shortcuts that test a condition over the whole batch at once (any / all elements) only skip work that no element needs, or perform work whose result is then discarded element by element.",
  ["inputs", "configurations"], "for all batches and all contents of the other elements",
  "The other elements' state must differ in a particular way (some reject a step, some have finished, some had an event); tests sample batches of nearly identical elements.",
  ["diffrax/_integrate.py", "diffrax/_solver/runge_kutta.py", "diffrax/_solver/foster_langevin_srk.py", "diffrax/_global_interpolation.py", "diffrax/_step_size_controller/adaptive.py"],
  [("whole-batch reductions (eqxi.unvmap_any/all/max)", "diffeqsolve; loop; AbstractRungeKutta.step; AbstractFosterLangevinSRK.step; DenseInterpolation")])
# --- not claimed (see MANIFEST not_applicable) ---
p("C30", "Global error of an adaptive solve tracks the requested tolerances",
  "For well-conditioned problems the difference between the returned and the true solution is proportional to the requested tolerances.",
  ["inputs"], "for all smooth well-conditioned problems", "Quantifies over runtime error propagation of arbitrary user problems.",
  ["diffrax/_integrate.py"], [("local error control", "PIDController")])
p("C31", "Gradients equal the derivative of the numerical solution",
  "Backpropagated gradients of the discretise-then-optimise adjoints equal the true derivatives of the computed numbers, up to rounding.",
  ["inputs", "programs"], "for all differentiable problems", "Decided by the automatic differentiation of the array library underneath.",
  ["diffrax/_adjoint.py"], [("checkpointed while loops", "RecursiveCheckpointAdjoint")])
p("C32", "Batched, compiled and eager solves agree",
  "Mapping a solve over a batch, compiling it or running it eagerly gives the same numbers as solving each problem on its own.",
  ["programs", "configurations"], "for all vectorised or compiled uses", "Depends on the array library's transformations of arbitrary user functions.",
  ["diffrax/_integrate.py"], [("unvmap/nonbatchable fast paths", "loop")])
p("C33", "Memory and work stay within the documented complexity",
  "Backpropagation with n steps uses the documented number of checkpoints and O(n log n) work.",
  ["inputs", "histories"], "for all numbers of steps", "A resource bound realised inside the loop primitive of a dependency.",
  ["diffrax/_adjoint.py"], [("checkpoint counts", "RecursiveCheckpointAdjoint.loop")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
