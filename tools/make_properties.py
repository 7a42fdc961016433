#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
MAIN = "DeterministicParticleFlowControl/DeterministicParticleFlowControl.py"
SCN = "DeterministicParticleFlowControl/score_estimators/score_function_estimators.py"
SCT = "DeterministicParticleFlowControl/score_estimators/score_function_estimators_pytorch.py"
RBF = "DeterministicParticleFlowControl/kernels/RBF_pytorch.py"
OT = "DeterministicParticleFlowControl/reweighting/optimal_transport_reweighting.py"


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})


Zs = {"name": "Z", "meaning": "forward flow, dim x particles x time", "where": MAIN + " (DPFC, torched_DPFC)"}
Bs = {"name": "B", "meaning": "time-reversed (constrained) flow, same layout", "where": MAIN + " (DPFC, torched_DPFC)"}
Ts = {"name": "Ztr", "meaning": "forward flow of the true drift in Brownian bridge mode", "where": MAIN}

prop("C01", "Importable and usable in every optional-dependency configuration",
     "The package, imported by its name from the source tree or from an installed copy, always offers the numpy controller and the numpy estimators, and offers the PyTorch controller and estimator exactly when PyTorch is available. PyTorch, POT, numba and duecredit are optional: with any subset of them missing the import succeeds and the numpy controller samples its flows and returns finite controls.",
     ["configurations"], "all subsets of {torch, ot, numba, duecredit} being absent, source tree or installed copy, any working directory",
     "The reliably passing tests import two functions of one file by path; no test imports the package in more than the one configuration of the machine.",
     ["DeterministicParticleFlowControl/__init__.py", MAIN, "DeterministicParticleFlowControl/score_estimators/__init__.py", SCN, SCT, "DeterministicParticleFlowControl/due.py", "setup.py"],
     [("guarded imports", MAIN + ": try/except around ot, numba, torch; __all__"), ("guarded estimator import", "DeterministicParticleFlowControl/score_estimators/__init__.py"), ("citation stub", "DeterministicParticleFlowControl/due.py")],
     ["import statement", "public names", "a small controller run"])
prop("C02", "Flows start and end at the prescribed states and fill the whole time grid",
     "For every admissible problem and option set, of either backend, the time grid runs from the initial time in equal steps of 0.001 to within half a step of the end time. The forward flow holds every particle exactly at the initial state at the first time, the constrained flow holds every particle exactly at the target at the last time and exactly at the initial state at the first time, and both have one finite, dim-dimensional position for every particle at every time. The same holds for the additional true-drift forward flow when Brownian-bridge sampling is requested.",
     ["inputs", "configurations"], "dimension, particle and inducing point numbers, interval position and length (down to a few steps, not a multiple of the step), diffusion scalar or per dimension, deterministic or stochastic sampling, reweighting, bridge mode, backend, random state",
     "No passing test builds a controller; a few sampled problems could not cover the product of options, lengths and dimensions.",
     [MAIN], [("initial and terminal assignment", MAIN + ": forward_sampling*, backward_simulation"), ("time grid", MAIN + ": __init__ (np.arange / torch.arange)")],
     ["stored flows and time grid after construction"], [Zs, Bs, Ts])
prop("C03", "Forward particles follow drift minus half the diffusion-weighted score",
     "In deterministic sampling every forward particle moves in one time step by the step length times (drift at its current position and time, minus half the squared diffusion coefficient times the estimated log-density gradient of the current particle cloud), except for the very first step, which is one Euler-Maruyama step from the initial state with independent Gaussian noise for each particle and dimension. The same law holds in both backends, in any dimension, with a scalar or per-dimension diffusion coefficient, and, with the true drift and no reweighting, for the true-drift flow of bridge mode.",
     ["inputs", "histories"], "every time step of every run: drifts (linear, nonlinear, time dependent), dimension, particle numbers, diffusion, backend, reweighting on or off",
     "The passing tests never run the sampler; a test of a few moments of one run could not tell a wrong coefficient, time or cloud in some step or configuration.",
     [MAIN, SCN, SCT], [("effective drift", MAIN + ": f_seperate, f_seperate_true"), ("forward integrator", MAIN + ": forward_sampling_Otto, forward_sampling_Otto_true")],
     ["stored forward flow, step by step", "positions passed to the user's drift and path cost"], [Zs, Ts])
prop("C04", "Constrained particles follow the time-reversed flow equation",
     "Going backwards from the target, every constrained particle moves in one time step by the step length times (minus the drift at its current position and time, plus the squared diffusion coefficient times the estimated log-density gradient of the forward flow at that time, minus half of it times that of the constrained flow itself, both at the particle). Only the step that leaves the target differs: it has no constrained-flow term and adds independent Gaussian noise of variance squared-diffusion times step. Both backends and all forward modes (plain, reweighted, bridge) obey this.",
     ["inputs", "histories"], "every backward step of every run: problem, dimension, diffusion, forward mode, backend",
     "No passing test runs the backward sampler; sign, factor, time-index and cloud mix-ups still give plausible trajectories pinned at both ends.",
     [MAIN, SCN, SCT], [("backward integrator", MAIN + ": backward_simulation"), ("score of the forward flow", MAIN + ": density_estimation"), ("score of the constrained flow", MAIN + ": bw_density_estimation")],
     ["stored forward and constrained flows, step by step"], [Zs, Bs])
prop("C05", "User drift and path cost are evaluated at matching states and times",
     "While the flows are sampled, the user's drift is only ever called with the complete dim-by-particles array of positions of one of the flows together with the time of the grid at which the flow has those positions, and the path cost only with the complete forward cloud about to be reweighted and its own time. Every step of each flow uses such an evaluation: forward steps at their starting point, backward steps at the (later) point they leave, reweighting at every time but the first.",
     ["histories", "inputs"], "the complete call history of the user callbacks during construction, over problems, intervals not starting at zero, modes and backends",
     "A test with a time-independent drift (all that exist) cannot see the time argument at all, and none observes the calls.",
     [MAIN], [("drift calls", MAIN + ": forward_sampling*, f_seperate*, backward_simulation"), ("path cost calls", MAIN + ": forward_sampling, forward_sampling_Otto")],
     ["call events of the user's drift, true drift and path cost", "stored flows"], [Zs, Bs, Ts])
prop("C06", "Stochastic sampling is Euler-Maruyama of the same forward and reverse SDEs",
     "With deterministic dynamics switched off, forward increments are drift at the starting point and time times the step plus Gaussian noise with variance squared-diffusion times step, and backward increments are minus the drift plus the squared diffusion times the log-density gradient of the forward flow, times the step, plus noise of the same variance. The noise is independent over particles, dimensions and steps, and reweighting (weights exponential in path cost times step), time-dependent drifts and any dimension work as in deterministic mode, in both backends.",
     ["inputs", "histories"], "runs of the stochastic mode over problems, dimensions, diffusion forms, reweighting and backends; all increments of all particles",
     "No test constructs a controller in this mode; the statement is about distributions and all steps.",
     [MAIN], [("stochastic forward sampling", MAIN + ": forward_sampling"), ("stochastic backward step", MAIN + ": backward_simulation (not deterministic)")],
     ["increments of the stored flows", "path cost call events"], [Zs, Bs])
prop("C07", "Reweighting moves the cloud to its weighted version and conserves the mean",
     "Whenever a path cost is given, at every time but the first the forward cloud is replaced by a transported one whose mean is exactly the mean of the old cloud under normalised weights proportional to exp(path cost times step length), whose particles are convex combinations of the old ones, and which has moved as optimal transport with the squared distance as cost moves it: no farther than needed, and, where the optimal coupling is unique, to the very positions it gives. A path cost that is the same for all particles leaves the cloud as it is, and adding any constant to the path cost, however large, changes nothing.",
     ["inputs", "histories"], "every reweighting event of every run: path costs (time dependent, large, offset, nearly constant), dimension, mode, backend",
     "No test uses reweighting; overflow, sign or stale-weight errors need particular costs and several steps to show.",
     [MAIN, OT], [("weights", MAIN + ": forward_sampling, forward_sampling_Otto"), ("transport", OT)],
     ["path cost call events (cloud before)", "stored forward flow (cloud after)"], [Zs])
prop("C08", "The particle transport map is an optimal coupling of weights and uniform",
     "For any sample set and normalised non-negative weights the map returned is a non-negative square matrix whose columns sum to one and whose rows sum to the number of samples times the weights, so the transported samples have exactly the weighted mean. Its total transport cost, the squared Euclidean distance, is minimal among all such matrices; equal weights give the identity, and relabelling the samples relabels the map.",
     ["inputs"], "sample numbers 1 to hundreds, dimensions, scales and offsets, coinciding or collinear samples, weights from uniform to fully concentrated with exact zeros, weights as vector or column",
     "No test calls the function; optimality and exact marginals are statements over all couplings.",
     [OT], [("transport plan", OT + ": reweight_optimal_transport_multidim")], ["returned matrix, against an independent linear program and its dual"])
prop("C09", "The control is the difference of the two flows' log-density gradients",
     "For any set of query points, one per row, and any grid time strictly inside the interval, the control has one row per dimension and one column per query point and equals the log-density gradient of the constrained flow minus that of the forward flow at that time, both at the query point and both estimated from the stored particles (Gaussian approximation for the first and last five times); in bridge mode the true-drift forward flow takes the place of the forward flow. The value at a point does not depend on the other points queried with it, however far away they are.",
     ["inputs", "histories"], "query points (inside, at and far outside the flows; one or many), time indices including both sides of the switch near the ends, dimensions, modes, backends",
     "No test calls the control; wrong flow, time, sign or per-dimension mix-ups look plausible at any one point.",
     [MAIN, SCN, SCT], [("control", MAIN + ": calculate_u (both classes)")], ["returned controls against a reference computed from the stored flows"], [Zs, Bs, Ts])
prop("C10", "Applying the controls steers the system from initial state to target",
     "When the controlled equation - drift plus squared diffusion times the returned control, plus noise - is simulated from the initial state, the trajectories arrive at the target at the end of the interval up to a small fraction of the free spread, and for linear systems, where the exact bridge is known in closed form, the constrained flow and the controlled ensemble have its mean and spread at intermediate times. This holds for both backends, without and with bridge-mode or path-cost reweighting.",
     ["inputs", "histories"], "problems (free diffusion, Ornstein-Uhlenbeck with per-dimension rates, limit cycle, double well), targets typical and atypical, dimensions, diffusion, backends, random states",
     "This is the purpose of the package and no test asserts anything about it; it is a statement about ensembles over whole runs.",
     [MAIN], [("whole pipeline", MAIN + ": DPFC, torched_DPFC")], ["constrained flow, controlled and free trajectories, exact bridge moments"], [Zs, Bs])
prop("C11", "Numpy score estimators compute the sparse kernel estimator for all inputs",
     "For any samples, inducing points, lengthscale (number or one per dimension), regularisation constant and dimension, each numpy estimator returns the regularised sparse kernel estimate of the log-density gradient: the kernel expansion over the inducing points whose coefficients solve the regularised normal equations of the score matching problem for the Gaussian kernel. The evaluated form at the samples, the functional form at arbitrary points, the one-dimension-at-a-time, the all-dimensions and the legacy version all give that same value.",
     ["inputs"], "sample and inducing numbers from 1 to hundreds, dimensions 1 to 6, scales and offsets, scalar, list, tuple and array lengthscales, regularisation constants, array layouts, every selected dimension, query points",
     "The passing tests reach only the distance helper; the estimator tests compare copies of the code inside the test file.",
     [SCN], [("estimators", SCN + ": score_function_multid_seperate, _all_dims, _old")], ["returned values and functions against an independent solver"])
prop("C12", "The PyTorch score estimator equals the numpy one for all argument forms",
     "For any samples, inducing points, lengthscale and regularisation constant the PyTorch estimator returns, in evaluated and in functional form, the same values as the numpy estimators up to rounding. This does not depend on whether samples, inducing points, lengthscale and query points are given as arrays, lists (lengthscale) or tensors, nor on the lengthscale being one number or one per dimension.",
     ["inputs", "configurations"], "problems as for the numpy estimators, times all combinations of argument types",
     "The repository's comparison tests run copies of the functions (and fail); no test calls the packaged function with more than one argument form.",
     [SCT, RBF, SCN], [("estimator", SCT + ": torched_score_function_multid_seperate_all_dims"), ("kernel", RBF)], ["returned values and functions of both backends, same inputs"])
prop("C13", "Score estimates are accurate and transform like a log-density gradient",
     "With many samples of a smooth density the estimated log-density gradient is close to the true one (right sign and scale in each dimension, Stein's identities hold), and closer the more samples there are. It does not change when samples or inducing points are reordered; under translations it is carried along; under rescaling of coordinates and lengthscales it scales inversely; under a permutation of the coordinates it is permuted. All estimators of both backends behave so.",
     ["inputs"], "Gaussian and mixture densities, dimensions, sample numbers, offsets up to 1e3 times the spread, per-dimension scales from 1e-3 to 1e3, permutations",
     "Invariances are statements about all inputs and all transformations; the tests sample one distribution and assert agreement only.",
     [SCN, SCT, RBF], [("estimators", SCN), ("estimator", SCT)], ["returned values, against exact scores and transformed calls"])
prop("C14", "The Gaussian kernel and its gradient are exact and history independent",
     "For any points and lengthscale (one or per dimension) and signal variance, the kernel matrix has entries variance times exp of minus half the squared scaled distance: it is symmetric and positive semidefinite for one point set and equals the variance on its diagonal. The gradient array equals the derivative of the kernel in its sign convention (with respect to the second argument), for the points it is called with, whatever was evaluated before on the same kernel object, and omitting the second point set means the first.",
     ["inputs", "histories"], "point sets, dimensions, lengthscale and variance forms, arrays or tensors, sequences of interleaved evaluations on shared and separate kernel objects",
     "The kernel test is a flaky comparison of a copy of the class inside the test; no test makes two calls in a row.",
     [RBF], [("kernel", RBF + ": RBF.Kernel"), ("gradient", RBF + ": RBF.gradient_X")], ["returned tensors against the formula and numerical differentiation"],
     [{"name": "K_data", "meaning": "kernel matrix kept from the last evaluation", "where": RBF}])
prop("C15", "Pairwise distances are exact, complete and stay within the given arrays",
     "For any two point sets of equal dimension the distance helper fills exactly the block of the output array given by the two set sizes with the Euclidean (or squared Euclidean, as selected) distances, whatever the output held before, for any array layout and any number of threads, and reads and writes nothing else. Point sets of different dimension and outputs that are too small are rejected without touching memory.",
     ["inputs", "schedules", "configurations"], "set sizes including 0 and 1, dimensions, magnitudes, layouts (Fortran, strided, views, read-only inputs), integer and single precision inputs, dirty and oversized outputs, thread counts, compiled and interpreted execution",
     "The tests use two fixed shapes, squared distances and zeroed contiguous outputs in one thread configuration; races and out-of-bounds accesses of compiled parallel loops do not show there.",
     [SCN], [("parallel loops", SCN + ": my_cdist")], ["output array, guard regions around inputs and output"])
prop("C16", "No caller data is modified and controllers do not influence each other",
     "Building controllers, querying controls and coverage, estimating scores and computing kernels, distances (other than the output array) or transport maps never modifies the caller's arrays, and later changes to the caller's arrays other than through the documented arguments do not alter results already stored. Controllers share no state: with the same random state a controller's flows and controls are the same whether or not others were built or queried before or in between, and queries never change the stored flows.",
     ["histories", "inputs"], "interleavings of constructions and queries of several controllers of both backends, read-only and checksummed inputs, later mutation of inputs",
     "Aliasing and leftover-state defects need a sequence of operations on several objects; tests make one call.",
     [MAIN, SCN, SCT, RBF, OT], [("per-instance storage", MAIN + ": __init__"), ("pure functions", SCN + ", " + SCT + ", " + RBF + ", " + OT)], ["checksums of inputs and stored flows around every operation"], [Zs, Bs])
prop("C17", "Runs are reproducible from the seed and unaffected by neutral options",
     "Two controllers of the same backend built with the same arguments after seeding the library generators alike have identical flows and, seeded alike again, identical controls. Choosing the unsupported periodic kernel gives a warning and exactly the result of the default kernel, and switching logging on at any level, or moving the working directory or hash seed, changes neither the results nor reports errors.",
     ["configurations", "histories"], "problems, modes, backends, seeds, logging levels, processes",
     "Requires comparing complete runs under different configurations; no test builds two controllers.",
     [MAIN], [("library random generators", MAIN + ": np.random / torch sampling"), ("kernel fallback", MAIN + ": __init__"), ("log messages", MAIN)], ["stored flows, controls, log records and standard error"], [Zs, Bs])
prop("C18", "Numpy and PyTorch controllers are interchangeable",
     "For the same problem the controllers of the two backends produce forward, true-drift and constrained flows with the same mean and spread over time up to sampling error (and up to what the different region of the inducing points - common to both flows in numpy, spanned by both in PyTorch - does to it), and for the same stored flows the same controls up to the variability of the random inducing points. The PyTorch controller accepts states as numpy arrays as well as tensors, with the same result.",
     ["inputs", "configurations"], "problems, dimensions, diffusion forms, plain, reweighted and bridge modes, deterministic and stochastic sampling, state types",
     "No test compares the controllers; agreement must hold for every problem and mode.",
     [MAIN, SCT, SCN], [("two implementations of one algorithm", MAIN + ": DPFC and torched_DPFC")], ["moments of stored flows, controls"], [Zs, Bs, Ts])
prop("C19", "Results do not depend on units, origin or clock zero",
     "With the same random state, shifting the origin of the state space shifts both flows and leaves controls as they are; measuring the state in other units (all together, or per dimension when nothing is reweighted) scales the flows and scales the controls inversely; and shifting the interval together with all time-dependent inputs changes nothing. This holds for whole controller runs in every mode of both backends, up to rounding as the run itself amplifies it.",
     ["inputs"], "problems, modes, backends, scale factors over many orders of magnitude, offsets, time shifts including negative times",
     "A statement about pairs of runs for all transformations; no test builds a controller twice.",
     [MAIN, SCN, SCT, OT], [("lengthscales and inducing points from the particles", MAIN), ("scale-free transport", OT)], ["flows and controls of the original and the transformed problem"], [Zs, Bs, Ts])
prop("C20", "The coverage query tells whether a state lies within both flows",
     "For any state and time index the coverage query is true exactly when, in every dimension, the state lies between the smallest and the largest particle of the forward flow and also of the constrained flow at that time, boundaries included. It is the same in both backends.",
     ["inputs"], "states inside, on the boundary of, and just outside each flow in each dimension, all time indices, dimensions, backends",
     "No test calls it; errors in one dimension, one flow or at one side need a point between the two answers.",
     [MAIN], [("coverage", MAIN + ": check_if_covered (both classes)")], ["returned truth value against the stored flows"], [Zs, Bs])
prop("C21", "Memory is bounded by the stored flows, not by the history of the run",
     "Building a controller needs memory for its stored flows plus a workspace that does not grow with the number of time steps, and any number of control or coverage queries keeps no additional memory. Flows and controls of the PyTorch controller are plain numbers that can be converted to arrays, without a record of how they were computed.",
     ["histories", "inputs"], "numbers of time steps and queries, particle numbers, modes, backends",
     "Growth shows only in long runs; the tests' runs are short and look at no resource.",
     [MAIN, SCT, RBF], [("no retained intermediate results", SCT + ": detached kernels"), ("preallocated storage", MAIN + ": __init__")], ["process and allocator memory during and after runs", "gradient flags of results"], [Zs, Bs])
prop("C22", "Concurrent use from several threads gives the sequential results",
     "Score estimation, distances, kernels, transport maps and control queries on a shared controller may be called from several threads at once and each call returns what it would have returned alone; controllers built concurrently are each valid, sharing nothing. No such call crashes or deadlocks the process.",
     ["schedules"], "thread counts, interleavings forced by short switch intervals and by delays inside user callbacks, mixed operations on shared inputs and shared controllers",
     "No test starts a thread.",
     [MAIN, SCN, SCT, RBF, OT], [("functions without shared state", SCN + ", " + SCT + ", " + OT), ("parallel loops", SCN + ": my_cdist")], ["returned values per call, validity of flows, process exit"], [Zs, Bs])
prop("C23", "PyTorch work stays on the chosen device and precision",
     "With a device named explicitly the PyTorch controller, estimator and kernel keep every tensor they create on that device and in double precision, so that flows and controls are the same whatever the process-wide default device or default precision is. The helper that chooses a device names the GPU exactly when PyTorch reports one, and otherwise the CPU.",
     ["configurations", "inputs"], "process-wide default device and default floating type, explicit device, modes, availability of a GPU",
     "On a CPU-only machine with default settings a tensor created on the default device is indistinguishable; the tests run only there.",
     [MAIN, SCT, RBF, "DeterministicParticleFlowControl/utils/utils_pytorch.py"], [("device and dtype arguments", MAIN + ": torched_DPFC, " + SCT + ", " + RBF), ("device choice", "DeterministicParticleFlowControl/utils/utils_pytorch.py: set_device")], ["device and type of stored tensors, results under changed defaults"], [Zs, Bs, Ts])

prop("C24", "Using the library leaves the process as it was",
     "Importing the package and using it (building controllers in any mode, asking for controls and coverage, estimating scores, reweighting, evaluating kernels) leaves the settings of the process as the caller made them - numpy's and PyTorch's error handling, precision, gradient, determinism, thread and print settings, warning filters, log levels, plotting settings and figures, signal handlers, environment, working directory, module path, and the functions of the libraries it uses - also while the user callbacks run. The global random generators are advanced but never put into a fixed state. Nothing is written to standard output or to files, and no thread, process or open file is left over.",
     ["histories", "configurations"], "public operations, modes, backends, caller settings, optional libraries present or absent, moments inside user callbacks",
     "A changed setting shows up in other parts of the user's program, not in the results of the library; tests look at results only.",
     [MAIN, SCN, SCT, RBF, OT, "DeterministicParticleFlowControl/__init__.py", "DeterministicParticleFlowControl/due.py"],
     [("module level of the package", "DeterministicParticleFlowControl/__init__.py, " + MAIN), ("random sampling from the global generators", MAIN), ("log messages", MAIN)],
     ["process-wide settings before, during and after each operation", "states of the global random generators", "standard output, files, threads, processes"])
prop("C25", "Errors of user callbacks reach the caller and leave nothing behind",
     "When the drift, the true drift or the path cost raises an exception, of whatever type and at whatever moment of a run, that very exception reaches the code that is building the controller, the callback is not called again, and nothing is left behind: process-wide settings are as before, existing controllers give the same controls, and solving the same problem again gives the flows and controls of a run without any failure.",
     ["fault_sequences", "histories"], "callback, moment of the failure, exception type, modes, backends, kinds of sampling",
     "The tests' callbacks never fail; every call of every callback is a separate failure point.",
     [MAIN], [("calls of f, f_true and U inside the sampling loops", MAIN + ": forward_sampling, forward_sampling_Otto, forward_sampling_Otto_true, density_estimation, reverse_sampling")],
     ["exception received by the caller, number of callback calls", "process-wide settings", "flows and controls of later runs"], [Zs, Bs, Ts])

prop("C26", "Linear-quadratic problems are solved as theory says",
     "For linear drifts, constant diffusion and quadratic or linear path costs - where the optimally controlled diffusion is known in closed form - the particle flows reproduce it: the forward flow has the mean and covariance of the uncontrolled diffusion weighted by the path cost, the constrained flow those of the optimally controlled process that ends in the target, the true-drift flow those of the diffusion with the true drift, at every time between the ends; and calculate_u returns the exact optimal control at the points visited, up to the errors of sampling and of the sparse score estimator.",
     ["inputs", "configurations"], "linear time-dependent drifts, diffusions, intervals, targets, path costs, modes, backends, kinds of sampling, dimensions",
     "The whole algorithm against theory for all problems of a class; the tests never compare a solution with anything.",
     [MAIN, OT, SCN, SCT], [("sampling loops, transport, bridging and control together", MAIN)], ["moments of the stored flows over time", "controls at points of the constrained flow"], [Zs, Bs, Ts])

prop("C27", "Nonlinear problems are solved as theory says",
     "For nonlinear drifts (double wells, travelling waves, time-dependent forces), constant diffusion and any path cost (barriers, wells, moving ones), the whole distribution of each flow is the one theory demands, at every time between the ends: the forward flow has the law of the diffusion weighted by the path cost, the constrained flow the law of the optimally controlled diffusion that ends in the target, the true-drift flow the law of the diffusion with the true drift; and calculate_u returns the gradient of the logarithm of their ratio at the points visited. All up to the errors of sampling and of the sparse score estimator.",
     ["inputs", "configurations"], "nonlinear time-dependent drifts, diffusions, intervals, targets, path costs, modes, backends, kinds of sampling",
     "The whole algorithm against theory for all problems; the tests never compare a solution with anything.",
     [MAIN, OT, SCN, SCT], [("sampling loops, transport, bridging and control together", MAIN)], ["particle distributions of the stored flows over time", "controls at points of the constrained flow"], [Zs, Bs, Ts])

prop("C28", "The same problem in any admissible form gives the same flows and controls",
     "With the same random state a controller has the same flows and controls in whatever form its problem is given: arguments by position in the documented order or by name, documented defaults left out or written out, times, particle numbers and switches as Python or numpy numbers, whole or not, states as lists, tuples or arrays (in PyTorch also tensors) of any memory layout, one diffusion coefficient or the same one for each dimension in any sequence, callbacks of any callable type with any parameter names, whose results may have any memory layout, be read only, or be one reused buffer. Inputs without bearing on the problem - a path cost without reweighting, a true drift without bridge mode, bridge mode without reweighting, the rejection switch - change nothing and are never called. Queries may likewise be of any memory layout and integer type.",
     ["inputs", "configurations"], "problems, modes, backends, kinds of sampling, times all forms of each argument",
     "The product of argument forms is far larger than any test suite, and the tests use one form.",
     [MAIN], [("constructors of both controllers", MAIN + ": __init__"), ("queries", MAIN + ": calculate_u")], ["flows, time grid and controls"], [Zs, Bs, Ts])

prop("C29", "Flows depend on nothing but what causes them",
     "With the same random state, the forward and true-drift flows do not depend on the target, and up to any time not on what drift or path cost are at later times; the true-drift flow does not depend on path cost or bridge drift, and neither the forward nor the constrained flow on the true drift. What has happened before is forgotten except for where the particles are: if two runs bring the particles to the same places by different pasts, all later forward positions, the constrained flow at later times and the controls there agree, up to rounding.",
     ["histories", "inputs"], "problems, modes, backends, kinds of sampling, the time of the change, size and place of the change",
     "Needs pairs of complete runs that differ by an intervention at one moment; tests run each problem once.",
     [MAIN, OT], [("sampling loops", MAIN + ": forward_sampling, forward_sampling_Otto, forward_sampling_Otto_true, backward_simulation")], ["stored flows of pairs of runs", "controls"], [Zs, Bs, Ts])

prop("C30", "The force functions serve any particle cloud and any ODE solver",
     "f_seperate and f_seperate_true of a controller, called with any particle cloud (dimensions by particles, with any number of particles, anywhere in space) and any time, return one finite force for every particle and dimension: the drift, or true drift, evaluated at just that cloud and time, minus half the squared diffusion times the estimated log-density gradient of that cloud. The result depends, apart from the random state, on nothing but the arguments, no stored flow changes, and a Gaussian cloud carried along by any ODE solver with these forces keeps the exact mean and covariance of the diffusion for linear drifts.",
     ["inputs", "histories"], "clouds of all shapes, scales, offsets and particle numbers, times inside and outside the interval, drifts, diffusions, modes, backends, other calls in between",
     "In the sampling loops the functions only ever see the controller's own clouds and times; the tests never call them.",
     [MAIN, SCN, SCT], [("force functions", MAIN + ": f_seperate, f_seperate_true")], ["returned forces", "callback arguments", "moments of integrated clouds", "stored flows"], [Zs, Bs, Ts])

prop("C31", "Admissible problems involve no invalid arithmetic",
     "No step of a run, query, score estimate, kernel evaluation or transport map divides by zero, overflows or performs an invalid operation, issues a numerical warning or produces a value that is not finite, for any admissible problem: with few particles or inducing points (and drifts that grow at most linearly), very short intervals, states of any scale and origin, repeated samples, path costs with any offset, regions forbidden by a path cost of minus infinity (as long as particles remain outside), weights that are zero, and queries arbitrarily far from the flows.",
     ["inputs", "histories"], "problems extreme in scale, origin, size, cost or query, modes, backends, kinds of sampling",
     "Invalid operations are often masked (a nan replaced, a zero weight of an infinite value), so that the final result of a sampled run tells nothing; every operation has to be watched.",
     [MAIN, SCN, SCT, RBF, OT], [("sampling loops and queries", MAIN + ": forward_sampling_Otto, backward_simulation, calculate_u"), ("transport map", OT + ": reweight_optimal_transport_multidim")], ["floating point traps", "numerical warnings", "every tensor of every operation", "flows and controls"], [Zs, Bs, Ts])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as fh:
        for p in P:
            fh.write(json.dumps(p) + "\n")
    print(len(P), "properties")
