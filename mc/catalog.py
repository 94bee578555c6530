"""Single source of properties.jsonl and MANIFEST.json (python -m mc.catalog)."""

import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
S = "src/rkopenmdao/"
RK = S + "runge_kutta_integrator.py"
DISC = S + "time_discretization/stage_ordered_runge_kutta_discretization.py"
DSTATE = S + "time_discretization/runge_kutta_discretization_state.py"
ODE = S + "discretized_ode/openmdao_ode.py"
EC = S + "error_controller.py"
ECS = S + "error_controllers.py"
CP = S + "checkpoint_interface/"


def P(pid, title, statement, over, qtext, why, files, mech, technique, note, observe=(), na=None):
    assert len(title) <= 80, (pid, len(title))
    return dict(pid=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                mech=mech, technique=technique, note=note, observe=list(observe), na=na)


PROPS = [
    P("C01", "Integration result is the Runge-Kutta recurrence of the given tableau",
      "For every explicit or diagonally implicit Butcher tableau, every set of quantities, step size, start time "
      "and number of steps, the final values and the final time reported by the integrator are those of the "
      "Runge-Kutta recurrence defined by that tableau applied to the user's stage model. This holds for quantities "
      "with and without an own previous state, for time dependent models and models with time independent inputs, "
      "and independently of whether the stage model is one explicit, one implicit or several coupled components.",
      ["inputs", "configurations", "programs"],
      "all tableaux x stage models x start times x step sizes x step counts x input values",
      "Tests check convergence towards analytical solutions of a few linear ODEs within loose tolerances for a few "
      "shipped tableaux; a wrong coefficient use that keeps the order, or only appears for asymmetric tableaux, "
      "several quantities or other start times, passes.",
      [RK, DISC, ODE],
      [("stage and step accumulation", DISC), ("time loop", RK), ("stage evaluation", ODE)],
      "exhaustive bounded enumeration of tableau/model/run configurations, lockstep with reference recurrence",
      "all 24 shipped tableaux and every tableau of a small coefficient grid, every run up to the step bound, real "
      "code against an independent closed-form model; trusts numpy and the closed-form stage solution"),
    P("C02", "Every shipped scheme has its stated order, consistency and structure",
      "Every Butcher tableau shipped with the package satisfies the row sum condition, the Runge-Kutta order "
      "conditions of its stated order for the main weights and of its stated embedded order for the embedded "
      "weights, and does not exceed the stated orders. The structure implied by its name (number of stages, "
      "explicit, singly diagonally implicit, explicit first stage, weak stage order, stiff accuracy where it is "
      "part of the family) is the structure of its coefficients, implicit schemes are A-stable, and all schemes are "
      "offered by the public list of schemes.",
      ["configurations"],
      "all shipped tableaux x all rooted trees up to the stated order plus one",
      "Tests integrate a few ODEs where several order conditions coincide or whose tolerance hides a perturbed "
      "coefficient; the order conditions of the embedded weights are not tested for all schemes.",
      [S + "butcher_tableaux.py", S + "butcher_tableau.py"],
      [("coefficient tables", S + "butcher_tableaux.py"), ("orders used by the controller", S + "butcher_tableau.py")],
      "exhaustive enumeration of rooted trees up to order 6 for every shipped tableau, exact order conditions",
      "complete for the finite catalogue: every tree of every order up to stated order + 1, all weights"),
    P("C03", "Forward mode derivatives are the exact tangent of the integration",
      "For every tableau, stage model, step count and point, the forward mode product returned by the integrator is "
      "the exact directional derivative of its final values and final time with respect to initial values, time "
      "independent inputs and initial time, for every seed direction. It is linear in the seed and leaves the "
      "primal results untouched.",
      ["inputs", "configurations", "programs"],
      "all tableaux x stage models x runs x seed directions",
      "Tests compare with finite differences of loose tolerance for a few models, mostly autonomous, scalar and with "
      "one step size; wrong terms for time or parameter seeds, mixed quantities or asymmetric tableaux remain unseen.",
      [RK, DISC, ODE],
      [("tangent of a step", DISC), ("tangent of a stage", ODE), ("seed transfer", RK)],
      "exhaustive bounded enumeration with all unit seeds, lockstep with complex-step tangent of the reference",
      "complete Jacobian columns on every enumerated configuration, compared to machine-precision complex step"),
    P("C04", "Reverse mode is the exact transpose under every checkpointing strategy",
      "With every checkpointing strategy that supports reverse mode and every setting of it, the reverse mode "
      "product is the exact transposed derivative of the integration with respect to initial values, time "
      "independent inputs and initial time, for every output seed. All strategies deliver the same result for every "
      "number of steps, and the strategy without checkpoints refuses reverse mode instead of returning something.",
      ["inputs", "configurations", "schedules"],
      "all tableaux x stage models x step counts x checkpointing strategies and their options x output seeds",
      "Tests use a handful of step counts (mostly 10 and 100) with default options and loose finite difference "
      "tolerances; small or awkward step counts, checkpoint counts and mixed models are not covered.",
      [RK, DISC, ODE, CP + "all_checkpointer.py", CP + "pyrevolve_checkpointer.py",
       CP + "runge_kutta_integrator_pyrevolve_classes.py"],
      [("adjoint of a step", DISC), ("adjoint of a stage", ODE), ("checkpoint schedules", CP + "pyrevolve_checkpointer.py")],
      "exhaustive enumeration of step counts x checkpoint strategies x models with all unit output seeds",
      "complete Jacobian rows for every enumerated configuration against the reference transpose"),
    P("C05", "Results never depend on the history of calls",
      "Whatever sequence of primal evaluations, forward products and reverse products at whatever points preceded, "
      "each evaluation or product returns exactly what a fresh integrator returns for the same inputs and seed. In "
      "particular changing only the start time, only a time independent input or only an initial value is always "
      "noticed, and values that became invalid (NaN, infinity) in an earlier call do not influence later calls. "
      "After another setup, also with other options or in another problem, nothing of the time before remains, and "
      "changed values of the stage model are used in the next run.",
      ["histories", "inputs"],
      "all operation sequences over {primal, forward, reverse} x points, for each checkpointing strategy",
      "Tests run one fixed order of operations (primal, then check of derivatives at the same point).",
      [RK, CP + "all_checkpointer.py", CP + "pyrevolve_checkpointer.py", ODE],
      [("reuse of checkpoints for unchanged inputs", RK), ("state containers reused between calls", RK),
       ("linear vector clearing", ODE)],
      "exhaustive operation-sequence exploration (all sequences to a depth) on the real integrator",
      "every sequence up to the depth bound over the alphabet, each result compared with a fresh reference"),
    P("C06", "Checkpointing reverses each step exactly once with its own state",
      "For every number of steps, every checkpointing strategy and every number of checkpoints, the forward "
      "iteration performs steps 1 to N in order and the reverse iteration calls the reverse step exactly once per "
      "step, from N down to 1, each time with exactly the state the forward iteration had after that step. "
      "Recomputations during the reverse iteration start from states the forward iteration actually reached, and "
      "the strategy can be reused for any further pairs of iterations.",
      ["schedules", "configurations", "histories"],
      "all numbers of steps x checkpoint counts x strategies x number of repeated iterations",
      "Tests only cover a few step counts, and check the final derivative instead of the schedule.",
      [CP + "pyrevolve_checkpointer.py", CP + "runge_kutta_integrator_pyrevolve_classes.py", CP + "all_checkpointer.py",
       CP + "no_checkpointer.py", S + "time_integration_state.py"],
      [("revolver operators", CP + "runge_kutta_integrator_pyrevolve_classes.py"),
       ("first step outside of the revolver", CP + "pyrevolve_checkpointer.py"), ("stack of states", CP + "all_checkpointer.py")],
      "explicit-state exploration of the checkpointer protocol with an instrumented step function",
      "every N up to the bound and every checkpoint count, all callbacks observed and compared with the only legal trace"),
    P("C07", "Adaptive steps respect tolerance, bounds and final time",
      "In an adaptive integration a step is accepted if and only if its error measure is within the tolerance or the "
      "step size can not be reduced below the lower bound any more. Every attempted step size lies within the "
      "configured bounds, except for a step shortened to hit the final time exactly, and no attempt reaches beyond "
      "the final time. A rejected attempt is repeated from the same state with a smaller step size or ends in an "
      "explicit error, never in an endless retry. This holds for numbers of any numeric type.",
      ["inputs", "configurations", "histories"],
      "all sequences of error measures the environment can return, over controllers, bounds and final times",
      "Tests run adaptive integrations with default bounds where rejections at the end or at the bounds never occur.",
      [EC, RK, S + "termination_criterion.py"],
      [("acceptance and clipping", EC), ("retry loop", RK)],
      "exhaustive environment-answer tree: the error measurer is the environment, all answer sequences explored",
      "all answer sequences over a finite error alphabet up to a horizon on the real integrator"),
    P("C08", "The integration stops exactly at the requested step or time",
      "With a predefined number of steps exactly that many steps are performed; with a predefined final time steps "
      "are performed until that time is reached and none after it, regardless of rounding in the accumulated time. "
      "The final time reported equals the start time plus the sum of the steps taken, and an adaptive integration "
      "ends at the final time itself. Starting at or after the final time performs no step and returns the initial values.",
      ["inputs", "configurations"],
      "all start times x step sizes x step counts/final times, fixed and adaptive, primal and derivative runs",
      "Tests use few combinations for which the accumulated time happens to round favourably.",
      [S + "termination_criterion.py", RK, EC, CP + "all_checkpointer.py", CP + "no_checkpointer.py",
       CP + "pyrevolve_checkpointer.py"],
      [("termination criteria", S + "termination_criterion.py"), ("loops of primal, forward and reverse", RK)],
      "exhaustive enumeration of start time/step size/final time grids, step counts observed by counting",
      "every grid point and every mode; number of steps compared with exact rational arithmetic"),
    P("C09", "Rejected attempts leave no trace in the result",
      "The outcome of an adaptive integration is a function of the accepted steps only: final values, final time, "
      "recorded step sizes and error measures equal those of integrating exactly the accepted step sizes without "
      "any rejection, whatever attempts were rejected in between. Derivatives are equally unaffected.",
      ["histories", "inputs"],
      "all patterns of acceptances and rejections up to a horizon",
      "Tests never produce chosen rejection patterns and never compare with a run over the accepted steps.",
      [RK, DISC, DSTATE],
      [("attempt on a copy of the state", RK), ("history update on acceptance", RK)],
      "exhaustive exploration of acceptance/rejection patterns through a scripted error measurer",
      "all patterns up to the horizon, tableaux and checkpointing strategies; compared with a reference run"),
    P("C10", "Step size controllers follow their control law, fallbacks take over",
      "Every controller of the catalogue suggests the step size of its documented control law for current and past "
      "errors and step sizes, clipped to the bounds and the remaining time, for every method order. Past "
      "information that is not available or zero does not enter. In a chain of controllers the fallback decides "
      "exactly when the preceding controller fails to reduce a rejected step or has been rejected too often, and "
      "control returns to the first one after an acceptance.",
      ["inputs", "configurations", "histories"],
      "all catalogue controllers x orders x error/step size histories, all call sequences of chained controllers",
      "Tests check three controllers at nine points and never the fallback chain.",
      [EC, ECS],
      [("control law", EC), ("coefficients", ECS), ("decorator", EC)],
      "exhaustive grid over controller inputs and all call sequences to a depth against a reference automaton",
      "every controller, order and grid point; all error sequences to a depth for all pairs of controllers"),
    P("C11", "Derivatives of adaptive runs differentiate exactly the accepted steps",
      "Forward and reverse derivatives of an adaptive integration are the exact derivatives of the integration over "
      "the accepted step sizes held fixed, and are transposes of each other. The derivative runs take exactly the "
      "same steps as the primal run at the same inputs.",
      ["inputs", "configurations"],
      "all controllers x tableaux x tolerances x final times/step counts x seeds",
      "Tests check adaptive derivatives with finite differences of loose tolerance for single settings.",
      [RK, EC, CP + "all_checkpointer.py", CP + "pyrevolve_checkpointer.py"],
      [("step size used for derivatives", RK), ("restored step size histories", CP + "runge_kutta_integrator_pyrevolve_classes.py")],
      "exhaustive configuration enumeration, complete Jacobians against reference over observed steps",
      "all unit seeds of every enumerated adaptive configuration"),
    P("C12", "Callbacks see every step once, in order, with consistent states",
      "Each callback is called before and after every accepted step of the respective operation, with step numbers "
      "1 to N (N down to 1 in reverse mode), in the order in which the callbacks were given, and the state passed "
      "is that at the beginning respectively the end of that step (in reverse mode the state the step ended with). Primal callbacks are not called by forward mode, "
      "and derivative callbacks not by primal runs; steps recomputed from checkpoints keep their numbers and states. "
      "The supplied logging and time measuring callbacks report each step with its number and duration.",
      ["histories", "configurations", "schedules"],
      "all step counts x operations x checkpointing strategies x rejection patterns x callback lists",
      "Tests count calls for single settings; order, numbering under recomputation and states are not checked.",
      [RK, S + "callback.py", CP + "pyrevolve_checkpointer.py", CP + "runge_kutta_integrator_pyrevolve_classes.py"],
      [("callback invocation", RK), ("step numbering", CP + "runge_kutta_integrator_pyrevolve_classes.py")],
      "exhaustive enumeration of operations x step counts x strategies, monitored callback traces",
      "complete callback trace of each run compared with the only legal one"),
    P("C13", "Output files contain exactly the integrated trajectory",
      "A file written during an integration contains the initial state and every step whose number is a multiple of "
      "the write period, with the time, the value of every quantity in its shape and, for embedded schemes, the "
      "error measure of that step, and nothing else. Running again overwrites the file, a following derivative "
      "computation leaves its content intact, and the reading functions return this content and the deviation "
      "from the given solution.",
      ["configurations", "histories", "inputs"],
      "all step counts x write periods x shapes x tableaux x adaptive or not x checkpointing x repeated runs",
      "Tests write with 100 steps and periods dividing it and only compare the final step.",
      [S + "file_writer.py", RK],
      [("file writing callback", S + "file_writer.py"), ("reading functions", S + "file_writer.py")],
      "exhaustive enumeration of step counts x periods x shapes x histories, file compared with reference trajectory",
      "complete file content of each enumerated run"),
    P("C14", "Tags are either interpreted correctly or rejected at setup",
      "A stage model is accepted if and only if each requested quantity has exactly one output and either none or "
      "exactly one of each of the two inputs of its role, each time independent quantity exactly one input, no "
      "variable belongs to two quantities, the variables of a quantity are of equal size, each input has an unmodified source of its own, and at most one scalar time variable exists. Accepted models get exactly "
      "the inputs and outputs of the requested quantities in the right shapes, everything else raises a setup error.",
      ["programs", "configurations"],
      "all assignments of tags to variables of small stage models, and all requested quantity lists",
      "Tests check about a dozen hand-picked taggings.",
      [S + "metadata_extractor.py", RK],
      [("tag extraction", S + "metadata_extractor.py"), ("interface creation", RK)],
      "exhaustive enumeration of tag assignments to the variables of small models against a reference classifier",
      "every assignment in the bound decided by the reference and by the real setup"),
    P("C15", "Quantities never mix: results are equivariant under renaming and reordering",
      "Permuting the requested quantities or time independent inputs, renaming them, reordering or nesting the "
      "components of the stage model or reshaping the arrays never changes any value: each quantity's final value "
      "and every derivative is the one of its own equation. Array entries keep their positions, and interface "
      "shapes are those of the stage model, for any number of dimensions (also none).",
      ["configurations", "programs"],
      "all permutations of requests x component orders x shapes x nesting x kinds of quantities",
      "Tests contain single orders of at most four scalar quantities.",
      [RK, S + "metadata_extractor.py", ODE],
      [("index ranges of quantities", S + "metadata_extractor.py"), ("packing and unpacking", RK), ("vector transfer", ODE)],
      "exhaustive enumeration of permutations, layouts and shapes; values compared per quantity with the reference",
      "every permutation/layout/shape in the bound, primal, forward and reverse"),
    P("C16", "Integration state containers copy completely and never alias",
      "Setting one integration state from another makes all contents equal and keeps both independent afterwards, "
      "storing a state as checkpoint and loading it restores every content, and exporting a state to a dictionary "
      "and creating a state from it gives an equal state of the same kind. This holds for all sizes and for plain "
      "and embedded schemes.",
      ["inputs", "configurations", "histories"],
      "all sizes x kinds of states x sequences of set, modify, export, import, save, load",
      "Tests check the conversion of few fields of one size.",
      [DSTATE, S + "time_integration_state.py", CP + "runge_kutta_integrator_pyrevolve_classes.py"],
      [("set, to_dict, from_dict", DSTATE), ("checkpoint data", CP + "runge_kutta_integrator_pyrevolve_classes.py")],
      "exhaustive exploration of operation sequences over containers of all small sizes against a model",
      "all sequences to a depth over all container sizes in the bound"),
    P("C17", "State norms and error measures have their mathematical meaning",
      "The norm of a state is the vector norm of the requested order over exactly the entries of the quantities not "
      "excluded, whatever the shapes, order or sizes of the quantities; the simple error measure is the norm of the "
      "difference of main and embedded solution and the improved one that norm relative to the norm of the solution "
      "plus the ratio of its two tolerances.",
      ["inputs", "configurations"],
      "all norm orders x exclusion sets x shapes x states",
      "Tests check few orders and exclusions on fixed vectors.",
      [ODE, S + "error_measurer.py", RK, DISC],
      [("norm accumulation", ODE), ("error measures", S + "error_measurer.py"), ("embedded error estimate", DISC)],
      "exhaustive enumeration of orders x exclusions x shapes x sign/zero patterns against direct definition",
      "all combinations in the bound, directly and through an integration"),
    P("C18", "Distributed runs equal serial runs for every partition",
      "Distributing the entries of the quantities over several processes in any way, including processes without "
      "any entry, gives the same final values, times, step sizes, derivatives, norms and output files as the serial "
      "run. All processes agree on accepting or rejecting steps and on the number of steps. Integrations on "
      "different groups of processes at the same time do not influence each other.",
      ["configurations", "schedules"],
      "all partitions of small quantities over 1 to 4 processes, fixed and adaptive, primal and derivatives",
      "Tests run with two processes and one even partition.",
      [ODE, S + "metadata_extractor.py", RK, S + "file_writer.py"],
      [("global index ranges", S + "metadata_extractor.py"), ("norm reduction", ODE), ("parallel writing", S + "file_writer.py")],
      "exhaustive enumeration of partitions over MPI processes compared with the serial reference",
      "all partitions in the bound executed with real MPI processes"),
    P("C19", "Shipped ODEs and utility components are consistent with their equations",
      "Each shipped stage component satisfies its differential equation in every stage for every step size and "
      "stage factor, its derivatives are the exact derivatives of its results in both modes and for partial seeds, "
      "and the analytical solutions shipped with it solve the same equation. The utility components convert between "
      "stage slope and stage value consistently and inverse to each other.",
      ["inputs", "configurations"],
      "all shipped components x step sizes x stage factors x states x times x parameters x modes",
      "Tests integrate few steps of single settings; reverse mode and nonstandard parameters are not covered.",
      [S + "odes/kaps.py", S + "odes/prothero_robinson_ode.py", S + "odes/simple_linear_ode.py",
       S + "utils/utility_components.py", S + "components.py", S + "utils/problems.py"],
      [("component equations", S + "odes/kaps.py"), ("stage value conversion", S + "utils/utility_components.py")],
      "exhaustive grid over step sizes, stage factors, states and parameters against the equations",
      "every grid point, every Jacobian entry in both modes"),
    P("C20", "Components see the correct stage time, step size, factor and state",
      "In every evaluation of the stage model, primal or linearized, components see the stage time, the step size "
      "and diagonal coefficient of the current stage, the state at the start of the step and the weighted sum of "
      "the previous slopes; derivatives are linearized at exactly the points of the primal stages. Each accepted "
      "or rejected attempt evaluates each stage exactly once and in order.",
      ["histories", "configurations"],
      "all tableaux x runs x modes, every stage evaluation observed",
      "Tests only look at final results.",
      [DISC, ODE, S + "om_data_exchange.py", S + "components.py"],
      [("data exchange with components", ODE), ("linearization points", DISC)],
      "exhaustive enumeration of runs with all component evaluations monitored against the legal trace",
      "complete trace of component evaluations of each enumerated run"),
    P("C21", "Integrators do not influence each other",
      "Any number of integrators alive at the same time, nested in one model or created from the same option "
      "objects, tableaux, controllers or callbacks lists, deliver the same results under every interleaving of "
      "their evaluations as each of them alone. Options and objects passed by the user are not modified.",
      ["histories", "schedules", "configurations"],
      "all interleavings of operations of two integrators sharing configuration objects",
      "Tests use one integrator at a time.",
      [RK, CP + "pyrevolve_checkpointer.py", EC, ECS, S + "components.py", S + "om_data_exchange.py"],
      [("per instance containers", RK), ("component data exchange objects", ODE), ("default arguments", ECS)],
      "exhaustive interleaving of operations of two integrators, each result compared with the isolated run",
      "all interleavings to a depth for all sharing patterns in the bound"),
    P("C22", "After any failure a repeated call gives the correct result",
      "If the evaluation or linearization of the user's stage model, a callback or the error controller fails at "
      "any point of a primal, forward or reverse run, the failure is reported to the caller, and every following "
      "call on the same integrator returns the same as on a fresh one. A failure never turns into a wrong result.",
      ["fault_sequences", "crash_points", "histories"],
      "all fault positions x operations x checkpointing strategies x following operations",
      "Tests contain no failing stage models.",
      [RK, CP + "all_checkpointer.py", CP + "pyrevolve_checkpointer.py", EC, ODE],
      [("invalidating checkpoints", RK), ("reset at start", RK)],
      "exhaustive fault injection at every environment call, followed by every operation",
      "every fault position of each run in the bound and every following operation"),
    P("C23", "Total derivatives of a surrounding model are solver and mode independent",
      "When the integrator is part of a larger model, alone, chained, used several times or in a coupled loop, the "
      "total derivatives of the model are the exact ones for every linear solver and both modes, also for "
      "derivatives with respect to a subset of the inputs or outputs. Derivatives approximated by OpenMDAO over the "
      "integrator agree with them within the accuracy of the approximation, or are refused explicitly.",
      ["configurations", "programs"],
      "all model topologies in the bound x linear solvers x modes x subsets of responses and variables",
      "Tests use the integrator alone with the default solver.",
      [RK],
      [("scope and accumulation of products", RK)],
      "exhaustive enumeration of topologies x solvers x modes x subsets against the reference total derivative",
      "all combinations in the bound, complete total Jacobians"),
    P("C24", "Step operators are exact for any ODE implementation",
      "For any ODE implementing the package's ODE interface, one step of the discretization, its derivative and its "
      "adjoint derivative are the Runge-Kutta step, its exact tangent and the exact transpose, including start and "
      "finalization. The embedded variant additionally provides the embedded solution and the difference to it, "
      "and otherwise behaves identically.",
      ["inputs", "configurations", "programs"],
      "all tableaux x ODE sizes x step sizes x seeds through the discretization interface",
      "Tests compare few tableaux on small linear ODEs with fixed vectors.",
      [DISC, DSTATE, S + "time_discretization/time_discretization_scheme_interface.py"],
      [("step, derivative, adjoint", DISC), ("start and finalization", DISC)],
      "exhaustive enumeration of tableaux x ODE sizes x all unit seeds against a dense reference",
      "complete Jacobians of chains of steps for all tableaux in the bound"),
    P("C25", "Tableau objects classify, validate and represent themselves correctly",
      "For every square coefficient matrix a tableau is classified as exactly one of explicit, diagonally implicit "
      "and implicit according to its nonzero pattern, inconsistent sizes are rejected, inconsistent weights or time "
      "stages give a warning, and omitted time stages are the row sums. Embedded tableaux expose their main and "
      "embedded method and the smaller order, and the printed form shows every coefficient. The integrator accepts "
      "exactly the explicit and diagonally implicit tableaux.",
      ["inputs", "configurations"],
      "all zero patterns of small matrices x weights x time stages x orders",
      "Tests construct a few valid tableaux.",
      [S + "butcher_tableau.py", RK],
      [("classification", S + "butcher_tableau.py"), ("validation", S + "butcher_tableau.py")],
      "exhaustive enumeration of zero patterns, sizes and defects against the definitions",
      "all zero patterns up to 3 stages (4 in thorough) and all size mismatches and defects in the bound"),
    P("C26", "The stage model wrapper behaves as a pure function",
      "Each evaluation, derivative and adjoint derivative of a stage through the wrapper of a user model depends "
      "only on its arguments and its linearization point: any sequence of evaluations at other points, with other "
      "step sizes or with invalid values in between does not change it, and derivative and adjoint derivative are "
      "transposes of each other. Arguments are never modified, and their numeric type and memory layout do not matter.",
      ["histories", "inputs"],
      "all sequences of wrapper operations over several points, step sizes and layouts",
      "Tests call the operations once in the order evaluation, derivative, adjoint.",
      [ODE, S + "om_data_exchange.py"],
      [("linearization point", ODE), ("data exchange", ODE), ("linear vectors", ODE)],
      "exhaustive operation-sequence exploration on the wrapper against the closed-form stage",
      "all sequences to a depth over several points and layouts"),
]


def properties():
    for p in PROPS:
        yield dict(id=p["pid"], title=p["title"], statement=p["statement"],
                   quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                   anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                                observe_at=["public API of the integrator and its components"], hook_needed=None))


def manifest():
    checks, na = [], []
    for p in PROPS:
        have = (ROOT / "mc" / "checks" / (p["pid"].lower() + ".py")).exists()
        if p["na"] or not have:
            na.append(dict(property=p["pid"], reason=p["na"] or "check under construction"))
            continue
        checks.append(dict(property=p["pid"], quick_cmd=f"bash bin/check {p['pid']} quick",
                           thorough_cmd=f"bash bin/check {p['pid']} thorough",
                           technique="explicit-state model checking of the implementation: " + p["technique"],
                           level="model_checking",
                           level_note=p["note"] + "; bounds are stated in DESIGN.md and in the evidence file"))
    return dict(version=1, setup_cmd="bash bin/setup", checks=checks, not_applicable=na,
                notes="No hooks: the checks drive the real code of /repo's working tree through its public API.")


if __name__ == "__main__":
    with open(ROOT / "properties.jsonl", "w", encoding="utf-8") as f:
        for line in properties():
            f.write(json.dumps(line) + "\n")
    (ROOT / "MANIFEST.json").write_text(json.dumps(manifest(), indent=1) + "\n")
