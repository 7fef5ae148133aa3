"""Writes properties.jsonl and MANIFEST.json (one place to keep them in step)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OPT = "stochopy/optimize/"
FILES = {
    "common": OPT + "_common.py", "helpers": OPT + "_helpers.py", "de": OPT + "de/_de.py", "destrat": OPT + "de/_strategy.py", "decons": OPT + "de/_constraints.py",
    "pso": OPT + "pso/_pso.py", "cpso": OPT + "cpso/_cpso.py", "cpsocons": OPT + "cpso/_constraints.py", "na": OPT + "na/_na.py",
    "cmaes": OPT + "cmaes/_cmaes.py", "cmacons": OPT + "cmaes/_constraints.py", "vdcma": OPT + "vdcma/_vdcma.py",
    "mcmc": "stochopy/sample/mcmc/_mcmc.py", "hmc": "stochopy/sample/hmc/_hmc.py", "scommon": "stochopy/sample/_common.py", "shelpers": "stochopy/sample/_helpers.py",
    "result": "stochopy/_common.py", "bench": "stochopy/factory/benchmark.py",
}
ALLOPT = ["de", "cpso", "pso", "na", "cmaes", "vdcma", "common"]
SAMP = ["mcmc", "hmc"]

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mechanism=mechanism, observe=observe, technique=technique, note=note))


TREE = "stateless model checking of the real code: exhaustive enumeration of objective-answer trees (deviation-bounded) with a monitor on every execution"

prop("C01", "Every solution an optimizer reports is genuine",
     "Whenever any optimizer (de, pso, cpso, na, cmaes, vdcma) reports a solution - in the final result or in the state given to the callback - x is a point the objective was evaluated at before the report, and fun is the value the objective returned there, whatever numeric type and magnitude these values have. With constraints='Penalize', fun is that value plus a non-negative penalty, which is zero for a point strictly inside the bounds.",
     ["inputs", "configurations", "histories"], "all objectives, option combinations, seeds; every callback of every run",
     "Tests compare a final x with a reference for a few seeds on one smooth function; they never look at intermediate reports, ties, plateaus, integer-valued or huge objectives.",
     ALLOPT, [("selection copies candidate and value together", "optimize/_common.py selection_sync/selection_async"), ("restart resets personal bests without touching the global best", "optimize/cpso/_cpso.py restart"), ("unstandardize/unnormalize of the reported point", "na/_na.py, cmaes/_cmaes.py, vdcma/_vdcma.py")],
     ["objective calls", "callback(X, state)", "OptimizeResult.x/.fun"], TREE,
     "Every execution of the bounded answer trees and every cell of the option lattice is run on the real code; assumes numeric (non-NaN) objectives.")

prop("C02", "The reported best is the best so far, and never gets worse",
     "For de, pso, cpso and na, the fun reported at each callback and at the end is the minimum of all objective values evaluated so far in the run, hence non-increasing over the callbacks. For cmaes and vdcma, it is the minimum (penalized, with 'Penalize') value of the current generation, and x is the member of that generation that has it.",
     ["inputs", "configurations", "histories"], "all objectives (including ties, plateaus, +inf, integers), all option combinations, every iteration",
     "Tests only see the final value for a few seeds; a best lost by a restart, by a tie or by an in-place update shows up only for particular orders of objective values.",
     ALLOPT, [("elitist selection", "optimize/_common.py selection_sync/selection_async"), ("restart spares the best particle", "optimize/cpso/_cpso.py restart"), ("argsort of the generation", "cmaes/_cmaes.py, vdcma/_vdcma.py")],
     ["objective calls", "callback state", "OptimizeResult.fun"], TREE,
     "All orders of objective values within the bounds (complete trees over 2-3 values) plus all bounded departures from smooth functions.")

prop("C03", "Evaluations, iterations and callbacks are accounted for and stay in budget",
     "For every optimizer run, nfev equals the number of times the objective was called, equals nit*popsize, and 1 <= nit <= maxiter; the callback is called exactly once per iteration, after its popsize evaluations, with nit=k and nfev=k*popsize at its k-th call. This holds for every maxiter >= 1, population size, updating mode and way of stopping.",
     ["inputs", "configurations", "histories"], "all objectives, maxiter >= 1, population sizes, early and late stops",
     "Tests do not count objective calls and use one maxiter; boundary values such as maxiter=1 and early stops are never exercised.",
     ALLOPT, [("iteration loops and nfev bookkeeping", "de/_de.py, cpso/_cpso.py, na/_na.py, cmaes/_cmaes.py, vdcma/_vdcma.py"), ("evaluation wrappers", "optimize/_common.py optimizer")],
     ["objective call count", "callback count and state", "OptimizeResult.nfev/.nit"], TREE,
     "Counted on every execution of the bounded space.")

prop("C04", "Termination is prompt and the reported status is true",
     "A run stops at maxiter, or at the end of the first iteration after the initial one (or at the initial one) whose best value is <= ftol, and status/message/success agree with the cause: -1 for maxiter; for a best value <= ftol, 0 if the last update of the best solution moved it by at most xtol, else 1 (cmaes and vdcma measure the move of the mean and give maxiter precedence). cmaes and vdcma additionally stop exactly when one of their documented numerical tests holds, in their documented order (NoEffectAxis, NoEffectCoord, ConditionCov, EqualFunValues, TolXUp, TolFun, TolX), with its status; success is status >= 0 and message is the text of the status.",
     ["inputs", "configurations", "histories"], "all objectives, ftol/xtol, maxiter, updating modes; every iteration at which a rule could fire",
     "Tests never assert a status or a stop iteration; each rule needs a particular history of objective values (plateaus, ill-conditioning, a hit in the middle of an asynchronous generation).",
     ALLOPT, [("stop tests", "optimize/_common.py selection_sync/selection_async, de_async, pso_async"), ("converge", "cmaes/_cmaes.py converge"), ("messages table", "optimize/_common.py messages")],
     ["OptimizeResult.status/.message/.success/.nit", "evaluated values"], TREE + "; CMA-ES/VD-CMA statuses against a reference model replayed on every execution",
     "All placements of ftol hits within the bounds; all ten statuses are reached. Decisions that depend on rounding are not compared.")

prop("C05", "The history and the population given to users are faithful",
     "With return_all, xall has shape (nit, m, ndim) and funall (nit, m) with m = ceil(verbosity*popsize) (1 when verbosity is 0), row k holding, in the original units, the first m members of iteration k's population and their (penalized) values, or its best member when verbosity is 0; without return_all these fields are absent. The callback receives the full population of its iteration, and a state whose history is the prefix of the final one and which does not change after the callback returns. The population of pso, cpso, na, cmaes and vdcma is the points evaluated in the iteration; for de it is the surviving individuals with their values.",
     ["inputs", "configurations", "histories"], "all objectives, verbosities, population sizes, optimizers, constraints; every row of every history",
     "Tests never inspect xall/funall contents, verbosity or callback arguments.",
     ALLOPT, [("xall/funall bookkeeping", "de/_de.py, cpso/_cpso.py, na/_na.py, cmaes/_cmaes.py, vdcma/_vdcma.py")],
     ["xall, funall", "callback(X, state)"], TREE,
     "Populations are reconstructed from the recorded evaluations alone (for DE by replaying the selection rule).")

prop("C06", "Constrained runs never evaluate or report an infeasible point",
     "With a constraint selected (de 'Random', pso/cpso 'Shrink', cmaes/vdcma 'Penalize') and always for na, every point passed to the objective and every reported solution is finite and inside the bounds, given a feasible initial guess; with de, pso and cpso every point evaluated from the second iteration on is finite and inside the bounds even if the initial guess is not feasible. Without an initial guess the first population of de, pso and cpso is inside the bounds in any case.",
     ["inputs", "configurations", "histories"], "all objectives, boxes, control parameters, optima in or outside of the box, particles on bounds or at rest",
     "Tests check one constrained run per method with an optimum inside; violations need particles at rest on a bound, several bounds hit at once, or an optimum outside of the box.",
     ["decons", "cpsocons", "cmacons", "na", "de", "cpso", "cmaes", "vdcma", "common"], [("Random", "de/_constraints.py"), ("Shrink", "cpso/_constraints.py"), ("Penalize", "cmaes/_constraints.py"), ("cell walls clipped to [0, 1]", "na/_na.py mutation")],
     ["objective arguments", "reported x"], TREE,
     "Bounds are compared with 1e-12 relative slack (rounding of the unit-cube mapping).")

prop("C07", "Thread and process parallelism is invisible in the results",
     "With workers > 1 (or negative) and the 'threading' or 'loky' backend, every optimizer gives exactly the results, histories and callback sequence of the serial run with updating='deferred', for every schedule of the workers and every number of workers. Each candidate of each iteration is evaluated exactly once, and an iteration starts only after all evaluations of the previous one are complete. With workers 0 or 1 the run is serial, with the updating that was asked for.",
     ["schedules", "configurations", "inputs"], "all interleavings of worker starts, completions and instruction-level preemptions (bounded), all worker counts 2..popsize+1 and -1",
     "Tests run one schedule chosen by the OS on one machine; a race or a mis-ordered gather shows up only under particular interleavings.",
     ["common", "de", "cpso", "na", "cmaes", "vdcma"], [("joblib Parallel/delayed wrapper", "optimize/_common.py optimizer"), ("sync when workers not in {0, 1}", "de/_de.py, cpso/_cpso.py")],
     ["objective calls (task, candidate)", "results and callbacks"], "controlled-scheduler stateless model checking of the real code under joblib (all schedules up to a preemption bound)",
     "joblib's backend is replaced through its public extension point by a scheduler-controlled one; real thread and process pools are run as conformance on the same drivers.")

prop("C08", "MPI parallelism is invisible in the results, on every rank",
     "With backend='mpi' and any number of ranks (fewer, equal or more than popsize), every rank returns exactly the result of the serial deferred run with the root's random stream, seeded or not, and each candidate is evaluated exactly once over all ranks. All ranks go through the same sequence of collective operations, so that no interleaving deadlocks.",
     ["schedules", "configurations", "inputs"], "all rank counts 1..popsize+2, all interleavings of the ranks' progress between collectives, seeded and unseeded runs, all optimizers",
     "Tests run MPI on a single rank only; partitioning, collectives and random-state agreement matter only with several ranks.",
     ["common", "de", "cpso", "na", "cmaes", "vdcma"], [("Bcast/strided partition/Allreduce wrapper", "optimize/_common.py optimizer")],
     ["per-rank objective calls", "per-rank results", "collective call sequences"], "stateless model checking of the real code on simulated ranks with a collective-matching oracle (all interleavings up to the bound)",
     "mpi4py is replaced by a model of its collectives (matching rules, value semantics); the thorough tier replays the drivers under the real mpirun.")

prop("C09", "Seeded runs are reproducible and observers do not influence them",
     "Two runs with the same arguments and the same seed (0 included) give identical evaluations, callbacks and results, whatever ran before them in the process and whatever the state of the global generator, the clock, the machine, the interpreter's hash seed and the content of unused memory are. Passing seed=s is equivalent to calling numpy.random.seed(s) before an unseeded run, and adding a callback, return_all or another verbosity changes neither the evaluated points nor the result.",
     ["histories", "configurations"], "all sequences of up to three preceding runs (any method, completed or aborted), all observer settings, enumerated clocks, machines, hash seeds and memory contents",
     "Tests seed once per process and never interleave different runs or compare observers.",
     ALLOPT + SAMP, [("np.random.seed(seed)", "every minimize/sample"), ("no module-level mutable state", "all modules")],
     ["evaluations, callbacks, results of paired runs"], "explicit enumeration of run histories on the real code (all operation sequences up to depth 3) with differential oracle",
     "The global NumPy generator is the only randomness intercepted.")

prop("C10", "Arguments are never modified and their container type does not matter",
     "No run changes the objects the caller passed (bounds, x0, args, stepsize, the options dictionary and its values), even when the objective or callback modifies nothing. Lists, tuples, integer or float arrays, read-only and non-contiguous arrays of any number type holding the same numbers give identical results, and so do options given as equal Python or NumPy scalars and strings.",
     ["inputs", "configurations"], "all methods x argument x container representation",
     "Tests pass one container type and never compare the arguments before and after.",
     ALLOPT + SAMP, [("np.array(x0, dtype=float)", "de/_de.py, cpso/_cpso.py"), ("stepsize scaling", "mcmc/_mcmc.py, hmc/_hmc.py")],
     ["arguments before/after", "results of equivalent calls"], "explicit enumeration of argument-representation states on the real code with differential oracle",
     "Representations enumerated: list, tuple, nested mixes, int/float32-exact/float64 arrays, Fortran order, strided views, read-only arrays.")

prop("C11", "The generic front ends and the direct functions are equivalent",
     "minimize(fun, bounds, ..., method=m, options=o) and the function of method m called directly with the same options give identical runs, likewise sample; options omitted mean the documented default values, and a method chosen by name runs that method. pso is cpso without competition (competitivity=None).",
     ["configurations", "inputs"], "all methods x all subsets of up to two options given or omitted",
     "Tests call either front end on one configuration; they do not compare the two or the defaults.",
     ["helpers", "shelpers"] + ALLOPT + SAMP, [("register/_optimizer_map", "optimize/_helpers.py, sample/_helpers.py"), ("positional forwarding of pso to cpso", "pso/_pso.py minimize")],
     ["paired runs"], "explicit enumeration of option subsets on the real code with differential oracle",
     "Documented defaults are transcribed in the check from the docstrings.")

prop("C12", "DE candidates follow the published mutation and crossover rules",
     "In every generation the candidate of individual i takes, in at least one coordinate chosen uniformly and in each other one with probability recombination, the mutant of the selected strategy built from uniformly drawn distinct individuals other than i (and the best so far, for best1bin/best2bin) scaled by mutation; other coordinates are those of individual i, and with 'Random' infeasible coordinates are redrawn uniformly in the bounds. The candidate replaces i if it is better (or equal, in immediate mode, where replacements are used at once by the following individuals).",
     ["inputs", "configurations", "histories"], "all objective-value orders, donor permutations, crossover masks, strategies, modes within the bounds",
     "Tests compare final values for four seeds; donor bookkeeping errors (reusing i, a stale best, a missing forced coordinate) still converge on the test function.",
     ["de", "destrat", "decons", "common"], [("strategies", "de/_strategy.py"), ("de_sync/de_async", "de/_de.py"), ("delete_shuffle_*", "de/_de.py")],
     ["evaluated candidates"], "stateless model checking: reference model replayed on every execution; exact candidate distribution by exhaustive enumeration of random answers",
     "Reference model: plain loops over the rule fed with NumPy's legacy stream; distribution check is independent of the draw order.")

prop("C13", "PSO and CPSO particles follow the published velocity and restart rules",
     "Every particle moves by inertia*v + cognitivity*r1*(personal best - x) + sociability*r2*(global best - x) with fresh uniform r1, r2 per coordinate, personal and global bests being those of the values evaluated so far (in immediate mode including the particles already moved in the iteration); 'Shrink' scales the whole velocity by the largest factor that keeps the particle in the bounds. In CPSO, after an iteration that does not stop the run, if the swarm radius is below the published threshold, the published number of worst particles restarts at uniform random positions in the bounds with zero velocity and forgotten personal bests, and the global best is kept.",
     ["inputs", "configurations", "histories"], "all objective-value orders, control parameters, modes, constraint hits, restart conditions within the bounds",
     "Tests compare final values for a few seeds; a stale personal or global best or a wrong restart set still converges on the test function.",
     ["cpso", "cpsocons", "pso", "common"], [("mutation", "cpso/_cpso.py"), ("restart", "cpso/_cpso.py"), ("Shrink", "cpso/_constraints.py")],
     ["evaluated candidates"], "stateless model checking: reference model of the swarm replayed on every execution of the answer trees",
     "Reference model fed with NumPy's legacy stream; positions are compared at every evaluation.")

prop("C14", "NA samples uniformly in the Voronoi cells of the best models",
     "In every iteration the i-th new model is drawn by a Gibbs walk, one coordinate after the other, inside the Voronoi cell (in coordinates normalized by the bounds) of the (i mod nr)-th best of all models evaluated before the iteration, nr = max(1, int(nrperc*popsize)), starting from that model; each coordinate is uniform over the part of the axis inside the cell and the bounds. Fixed variables (equal bounds) keep their value and do not influence the cells.",
     ["inputs", "configurations", "histories"], "all objective-value orders, nrperc, dimensions, fixed variables within the bounds",
     "Tests compare the final value for two seeds; a wrong cell wall still converges on the test function.",
     ["na", "common"], [("mutation", "na/_na.py"), ("normalize/unnormalize", "na/_na.py")],
     ["evaluated candidates"], "stateless model checking: geometric reference model (perpendicular bisectors) and cell-membership monitor on every execution",
     "The reference computes the walls from distances, not with the incremental formula of the code.")

prop("C15", "CMA-ES follows the published update equations",
     "Every candidate of every generation is mean + sigma*B*D*z for a fresh standard normal z, where mean, sigma and the covariance B*D^2*B' result from the published weighted recombination, evolution-path, covariance and step-size updates of the candidates and values seen so far, in coordinates scaled to [-1, 1]; the initial mean is x0 or uniform in the bounds. With 'Penalize', candidates are clipped to the bounds for evaluation and ranked by value plus the published adaptive penalty.",
     ["inputs", "configurations", "histories"], "all objective-value orders and option combinations within the bounds",
     "Tests compare the final value for two seeds; a wrong learning rate, a stale mean or a mis-sorted selection still converges on the test function.",
     ["cmaes", "cmacons", "common"], [("update equations", "cmaes/_cmaes.py cmaes"), ("Penalize", "cmaes/_constraints.py")],
     ["evaluated candidates", "reported best"], "stateless model checking: independent reference model replayed on every execution of the answer trees",
     "Comparison of one execution stops where a decision depends on rounding; with a degenerate spectrum candidates are compared by Mahalanobis norm.")

prop("C16", "VD-CMA follows the published update equations",
     "Every candidate of every generation is mean + sigma*D*(z + (sqrt(1+|v|^2)-1)<z,v/|v|>v/|v|) for a fresh standard normal z - except the two mirrored candidates along the last mean move from the second generation on - where mean, sigma, D and v result from the published natural-gradient and two-point step-size updates of the candidates and values seen so far, in coordinates scaled to [-1, 1]. With 'Penalize', candidates are clipped to the bounds for evaluation and ranked by value plus the published adaptive penalty.",
     ["inputs", "configurations", "histories"], "all objective-value orders and option combinations within the bounds, ndim below and above 5",
     "Tests compare the final value for two seeds in two dimensions, where the covariance update is partly switched off.",
     ["vdcma", "cmacons", "common"], [("update equations", "vdcma/_vdcma.py vdcma, pvec_and_qvec, ngv_ngd"), ("Penalize", "cmaes/_constraints.py")],
     ["evaluated candidates", "reported best"], "stateless model checking: independent reference model replayed on every execution of the answer trees",
     "Comparison of one execution stops where a decision depends on rounding.")

prop("C17", "MCMC is a correct Metropolis-Hastings sampler",
     "Each new sample is either the previous one perturbed, in the next block of max(1, int(perc*ndim)) consecutive variables (the last block holding what is left), by normal deviates with standard deviation stepsize*(half the bounds' width), accepted with probability min(1, exp(f(previous) - f(proposal))), or an exact repetition of the previous one. With 'Reject' proposals outside of the bounds have acceptance probability zero, and the chain leaves exp(-f) (restricted to the bounds) invariant.",
     ["inputs", "configurations", "histories"], "all objective values, states, blocks, steps and random answers within the bounds",
     "Tests only check a loose mean/deviation over one seeded chain; an acceptance that is slightly wrong or a stale energy stays within tolerance.",
     ["mcmc", "scommon"], [("Metropolis loop", "mcmc/_mcmc.py sample"), ("in_search_space", "sample/_common.py")],
     ["chain (callbacks, xall, funall)"], "exact transition kernels by exhaustive enumeration of random answers, plus reference model replayed on every execution of the answer trees",
     "Kernels are exact rationals on lattices; the chain comparison uses NumPy's legacy stream.")

prop("C18", "HMC is a correct Hamiltonian Monte Carlo sampler",
     "Each new sample is either the end point of the leapfrog (velocity Verlet) trajectory started from the previous one with a fresh standard normal momentum, with time step stepsize*(half the bounds' width) per variable and the gradient of the objective, accepted with probability min(1, exp(H(start) - H(end))), H = f + |p|^2/2, or an exact repetition of the previous one. The gradient is the user's jac(x, *args) if given, else the central finite difference with the given absolute step, and the two give the same chain where they agree; with 'Reject' infeasible end points are never accepted.",
     ["inputs", "configurations", "histories"], "all objective values, momenta of the alphabet, step sizes, trajectory lengths, gradients within the bounds",
     "Tests never pass jac, and only check loose moments of one seeded chain.",
     ["hmc", "scommon"], [("leap-frog loop", "hmc/_hmc.py sample"), ("numerical_gradient", "hmc/_hmc.py")],
     ["chain (callbacks, xall, funall)"], "exhaustive enumeration of momenta and acceptance cells of single transitions, plus reference model replayed on every execution of the answer trees",
     "The existing code makes nleap+1 position updates (pinned by the tests); the reference follows it.")

prop("C19", "Samplers report the chain, its best sample and acceptance truthfully",
     "For mcmc and hmc, the k-th callback gets the k-th sample and a state with nit=k, x/fun the best sample so far and its objective value (the initial sample counts), accept_ratio the fraction of accepted proposals among the k samples, and (with return_all) exactly the k samples so far with their values, none of which changes later. The result reports the same for the whole chain of exactly maxiter samples, and hmc's nfev is the number of objective calls; without return_all no histories are given.",
     ["inputs", "configurations", "histories"], "all objective-value orders (initial sample best, ties, rejections), maxiter >= 1, with and without return_all",
     "Tests only look at xall of the final result.",
     SAMP + ["shelpers"], [("best tracking, history slices", "mcmc/_mcmc.py, hmc/_hmc.py")],
     ["callbacks", "SampleResult"], TREE, "Sample values are looked up in the recorded objective calls.")

prop("C20", "Samplers with 'Reject' never leave the bounds",
     "With constraints='Reject' and a feasible start, every sample of mcmc and hmc (in the result, the histories and every callback) is inside the bounds, for every variable. mcmc does not even evaluate the objective outside of the bounds.",
     ["inputs", "configurations", "histories"], "all boxes, step sizes, blocks, objective values within the bounds",
     "Tests run one chain whose target lies well inside of the box.",
     ["scommon"] + SAMP, [("in_search_space", "sample/_common.py")],
     ["chain", "objective arguments"], TREE, "Exact comparison with the bounds.")

prop("C21", "Invalid configurations are rejected before any evaluation",
     "A call with an invalid argument - objective, callback or jac not callable, malformed bounds, x0 of the wrong shape or size, out-of-range control parameter, unknown method, strategy, updating mode, constraint or backend, population too small for the strategy - raises an exception before the objective or the callback is called even once, instead of running with other settings. Values on the edge of the documented ranges are accepted.",
     ["configurations", "inputs"], "all methods x every documented parameter x values inside, on and outside of its range, alone and in pairs",
     "Tests have almost no negative cases.",
     ALLOPT + SAMP + ["helpers", "shelpers"], [("argument checks", "every minimize/sample"), ("_constraints_map/_strategy_map lookups", "de/_de.py, cpso/_cpso.py, cmaes/_cmaes.py")],
     ["exceptions", "objective call count"], "explicit enumeration of the configuration lattice around every documented range, on the real code",
     "The type of the exception is not constrained.")

prop("C22", "The benchmark functions are the published ones",
     "ackley, griewank, quartic, rastrigin, rosenbrock, sphere and styblinski_tang return, for every real vector in any array-like form and every dimension, the value of the published formula as a scalar, without changing their argument. In particular the known global minimizers give the known minima, and no other point of the domain is lower (up to the rounding of the published constants).",
     ["inputs"], "all grid vectors of dimension 1-5 over an alphabet of coordinates, list/tuple/array/integer input",
     "Tests evaluate each function at one point.",
     ["bench"], [("formulas", "factory/benchmark.py")],
     ["return values"], "explicit enumeration of all grid points up to dimension 5 against independent scalar formulas",
     "Agreement to 1e-9 relative; the data domain is the enumerated grid.")

prop("C23", "Results behave consistently as dictionaries and as attribute records",
     "For optimization and sampling results, every sequence of attribute and item writes, deletions and updates (with string names that are not those of dict methods) leaves attribute and item access in agreement: r.k and r['k'] are the same object, missing attributes raise AttributeError (so hasattr/getattr defaults work) and missing items KeyError, and dir(r), keys, len, iteration and equality reflect exactly the present fields. Copies and pickles are equal to the original. repr never fails and shows every field but xall and funall; results of finished runs carry the documented fields.",
     ["histories", "programs"], "all operation sequences up to depth 5 over three keys",
     "Tests never manipulate a result.",
     ["result", "helpers", "shelpers"], [("BaseResult", "stochopy/_common.py")],
     ["attribute/item access"], "explicit-state search over operation sequences against a dict model",
     "Depth-bounded; keys include xall/funall and names of dict methods are excluded.")

prop("C24", "The initial population is a Latin hypercube sample of the bounds",
     "Without x0, the first population of de, pso, cpso and na has, for each variable, exactly one member in each of the popsize equal slices of its bounds. Over all answers of the random generator the slice orders of different variables are independent and each order is reached, and with x0 the first population evaluated is exactly x0.",
     ["inputs", "configurations"], "all permutations and cell positions (popsize <= 4, ndim <= 3), all popsizes up to 21 for fixed streams",
     "Tests never look at the initial population.",
     ["common", "de", "cpso", "na"], [("lhs", "optimize/_common.py")],
     ["first popsize evaluations"], "exhaustive enumeration of random answers on the real code",
     "Slices are compared with rounding slack.")

prop("C25", "An exception from user code propagates and leaves nothing behind",
     "An exception raised by the objective, jac or the callback at any call reaches the caller as that same exception (of the same type with the same arguments when raised in a worker process; StopIteration may be converted to RuntimeError), no further evaluation is started by a serial run, and nothing swallows it or turns it into a result - in serial runs, with worker threads or processes. A following run in the same process behaves exactly as if the failed one had not happened.",
     ["fault_sequences", "configurations"], "a fault at every objective call, jac call and callback of the runs in the bounds, all methods",
     "Tests never inject a fault.",
     ALLOPT + SAMP, [("no exception handling around user code", "all modules"), ("Parallel context manager", "optimize/_common.py optimizer")],
     ["exception identity", "calls after the fault", "next run"], "exhaustive fault-point enumeration on the real code",
     "Faults enumerated: one exception (also BaseException-derived) at each call.")

prop("C26", "The objective is called with a float vector and the extra arguments",
     "Every call of the objective, from every method, mode and backend, and of jac, passes a one-dimensional float array of length ndim followed by exactly the objects of args. The value used is the one returned. Scalars of any real type (Python or NumPy, integer, float or 0-d array) are accepted as values and equal values give equal runs. fun, jac and callback may be any callable (function, bound method, partial, or an object, even one that is empty, false or unhashable) without a difference.",
     ["inputs", "configurations"], "all methods x modes x args tuples x value types",
     "Tests pass no args and always return NumPy floats.",
     ALLOPT + SAMP, [("evaluation wrappers", "optimize/_common.py optimizer"), ("fun(x, *args)", "mcmc/_mcmc.py, hmc/_hmc.py")],
     ["objective arguments", "results"], TREE, "Exact identity of the args objects is required.")

prop("C27", "Results do not depend on the units of the variables or of a rank-only objective",
     "Shifting and scaling the bounds (by exact powers of two and matching shifts), together with x0 and the objective, shifts and scales every evaluated point and reported solution and changes nothing else. For de, pso, cpso, na and unpenalized cmaes and vdcma, replacing f by a strictly increasing function of f changes the evaluated points in no way as long as no termination test on values fires.",
     ["inputs", "configurations"], "all methods, boxes, scale factors 2^-20..2^20, monotone transforms of the enumerated answer trees",
     "Tests use one box and one function.",
     ALLOPT + SAMP, [("standardize/normalize", "na/_na.py, cmaes/_cmaes.py, vdcma/_vdcma.py"), ("bounds scaling", "optimize/_common.py lhs, mcmc/_mcmc.py, hmc/_hmc.py")],
     ["paired runs"], "stateless model checking with a relational (two-run) oracle on every execution of the answer trees",
     "cpso with competition is excluded from the scaling relation (known finding: restart radius is in absolute units).")

prop("C28", "Every documented valid configuration completes with a well-formed result",
     "For every combination of documented option values (lower < upper for every variable, or lower = upper with na), a run on a finite objective returns without raising and within its evaluation budget a result with the documented fields: x a float vector of length ndim, fun a real number, integer nit (and nfev for optimizers), and for optimizers success, status and message; and it draws all its points as finite numbers. This includes one-variable problems, the smallest populations, maxiter=1, edge values of the control parameters and integer-typed arguments.",
     ["configurations", "inputs"], "cross products of documented option values for all eight methods, pairwise and in small full products",
     "Tests use one configuration per method.",
     ALLOPT + SAMP, [("option handling", "every minimize/sample")],
     ["results, exceptions"], "explicit enumeration of the option lattice on the real code",
     "Known findings: documented array-like sigma of cmaes/vdcma is not supported.")

prop("C29", "Runs that overlap do not interfere",
     "Runs may be nested - an objective, jac or callback that itself calls minimize, sample or a method's function - or overlap in several threads that take turns. Each run gives exactly the evaluations, callbacks and result it gives alone with the same random numbers (the state of NumPy's global generator being handed over at each switch): runs share nothing else, whatever their methods, options and sizes. A run that returns leaves the process (NumPy's error handling and print options, warning filters, signal handlers, working directory) as it found it.",
     ["schedules", "configurations", "histories"], "all ordered pairs of configurations, every call of user code as the point of overlap, all schedules of two runs up to a number of switches",
     "Tests perform one run at a time; module-level work buffers, counters or caches are harmless until another run gets in between.",
     ALLOPT + SAMP, [("no module-level mutable state", "all modules"), ("per-run closures (count, cons, wrapper)", "optimize/_common.py, sample/hmc/_hmc.py, de/cpso _constraints.py")],
     ["evaluations, callbacks and results of every run involved"], "stateless model checking of the real code: all overlaps of two (three) runs at their calls of user code, preemption-bounded schedules of two threads, against the runs alone",
     "Runs switch only at calls of user code (objective, jac, callback).")

prop("C30", "Limits only decide where a run ends",
     "With the same seed, a run with a smaller maxiter is the beginning of the one with a larger maxiter: the same evaluations and callbacks, and a result equal to what the longer run reported at that iteration (for cpso with competitivity, whose restarts depend on maxiter by definition, this is not required). Likewise ftol ends a run at the first iteration whose best value reaches it (the initial one excepted) without changing anything before, and xtol changes nothing but the status.",
     ["inputs", "configurations", "histories"], "all methods and modes, every maxiter up to that of the run, every value reached as ftol, bounded departures of the objective",
     "Tests use one maxiter and the default tolerances, and never compare two runs.",
     ALLOPT + SAMP, [("iteration loops and stop tests", "de/_de.py, cpso/_cpso.py, na/_na.py, cmaes/_cmaes.py, vdcma/_vdcma.py, mcmc/_mcmc.py, hmc/_hmc.py"), ("selection", "optimize/_common.py")],
     ["paired runs"], "stateless model checking with a relational (prefix) oracle: every limit of every execution of the deviation-bounded answer trees",
     "The accept_ratio of a chain of a single sample is not compared (nothing was proposed).")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                "anchors": {"files": [FILES[f] for f in p["files"]], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]], "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    have = {f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "mc", "props")) if f.startswith("c") and f.endswith(".py")}
    checks = []
    for p in P:
        if p["id"] in have:
            checks.append({
                "property": p["id"], "quick_cmd": f"/opt/venv/bin/python mc/run.py {p['id']} quick", "thorough_cmd": f"/opt/venv/bin/python mc/run.py {p['id']} thorough",
                "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": "model_checking", "level_note": p["note"],
            })
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c \"import numpy, joblib; print(numpy.__version__, joblib.__version__)\"",
        "checks": checks,
        "not_applicable": [{"property": p["id"], "reason": "check not built yet"} for p in P if p["id"] not in have],
        "notes": "Pure Python: nothing to build; each check imports the sources of /repo afresh (empty bytecode cache). No hooks in /repo are needed.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


main()
