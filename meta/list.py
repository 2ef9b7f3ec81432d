CC = "lib/hnco/functions/controllers/controller.cc"
CH = "lib/hnco/functions/controllers/controller.hh"
NOTE = ("Sound over all paths of the analysed functions within the abstract domain (value numbering + template intervals); "
        "trusts the clang front end and the std models in hsa/stdmodel.py; assumes wrapped objects do not alias the analysed one. ")

prop("P01", "An evaluation budget is enforced exactly and its signal reaches the caller",
     "A function wrapped with a budget of B lets through exactly B evaluations, whether they are full, incremental or accounted after a safe evaluation, and signals exhaustion at the next request without evaluating and without changing the call count. "
     "A call counter counts every evaluation of each of the three kinds exactly once and nothing else, starting from zero. "
     "No library code between an evaluation and the application swallows the exhaustion or target signal.",
     ["histories", "inputs"], "every sequence of full, incremental and safe-evaluation-accounting calls, every budget value",
     "Tests run a few searches with one budget and never mix evaluation kinds, nor look at the count after the signal.",
     [CC, CH], [("CallCounter / OnBudgetFunction entry points", CC), ("exception handlers of the library", "lib/hnco")],
     "trace-partitioned abstract interpretation of controller entry points + handler scan", NOTE,
     ["get_num_calls", "LastEvaluation"])

prop("P02", "A run stops exactly when the target is reached, reporting the right pair",
     "A function wrapped with a target lets evaluations through while their value is below the target and signals as soon as, and only if, a value is greater than or equal to it, for full, incremental and accounted safe evaluations alike. "
     "When it signals, the reported solution is the bit vector whose value was just obtained (after the flips, for an incremental evaluation) together with that value. "
     "Stopping on the maximum means using the wrapped function's maximum as target.",
     ["inputs", "histories"], "every value/target ordering, every evaluation kind",
     "Tests check that runs stop on known maxima, not the equality boundary, nor the reported pair for incremental evaluation.",
     [CC, CH], [("StopOnTarget::evaluate, evaluate_incrementally, update", CC)],
     "trace-partitioned abstract interpretation of controller entry points", NOTE, ["get_trigger", "TargetReached"])

prop("P03", "Progress reports name the first evaluation that reached the best value",
     "After any sequence of evaluations of the three kinds, the progress report holds the best value seen, the index of the first evaluation that reached it, and, when recording is on, the bit vector that has this value. "
     "A value equal to the best one never moves the report, a strictly greater one always does, and the very first evaluation is always recorded. "
     "Tracking passes arguments and values through unchanged.",
     ["histories", "inputs"], "every sequence of evaluations and values",
     "Tests look at final values of a few runs only.",
     [CC, CH], [("ProgressTracker::update_last_improvement", CC)],
     "trace-partitioned abstract interpretation of controller entry points", NOTE, ["get_last_improvement"])

prop("P04", "Caching evaluations is transparent",
     "Through a cache, evaluating a bit vector returns the value the wrapped function gave for exactly that bit vector: a hit returns the value stored for all of its bits without evaluating or altering the cache, a miss evaluates once, returns that value and stores it for that bit vector. "
     "Nothing else changes the cache content, and the cache does not offer incremental evaluation unless it implements it.",
     ["histories", "inputs"], "every sequence of evaluations, every bit vector size",
     "A test compares a handful of cached values on one function.",
     [CC, CH, "lib/hnco/bit-vector.cc"], [("Cache::evaluate", CC), ("key construction", CC)],
     "trace-partitioned abstract interpretation over an abstract map", NOTE, ["evaluate", "get_lookup_ratio"])

prop("P05", "Function decorators are faithful to the function they wrap",
     "A decorated function announces the size, values, known maximum and descriptions that follow from the wrapped function and the decoration: controllers return the wrapped value for the same bit vector and forward size and maximum; "
     "a composition with a map evaluates and describes the image of its argument, has the map's input size, and claims a known maximum only if the wrapped function has one and the map is surjective; "
     "decorators which change values (opposite, noise, parsed modifier) never claim a known maximum. "
     "A controller's safe evaluation is the wrapped safe evaluation and changes nothing in the controller, and accounting for a safe evaluation reaches the wrapped function exactly once.",
     ["inputs", "configurations"], "every stacking of decorators, every bit vector",
     "Tests exercise a few decorators one by one on functions with a known maximum.",
     ["lib/hnco/functions/decorator.hh", "lib/hnco/functions/modifiers/modifier.hh", CH, CC],
     [("Decorator and its subclasses", "lib/hnco/functions")],
     "abstract interpretation of every query/evaluation method of every concrete decorator", NOTE,
     ["get_bv_size", "has_known_maximum", "get_maximum", "evaluate_safely", "describe"])

prop("P06", "Incremental evaluation agrees with full evaluation",
     "For every function which offers incremental evaluation, the value it returns for (x, f(x), flipped bits) is f of the flipped bit vector, for every bit vector and every set of distinct flipped bits, and it leaves both the function and the bit vector as they were. "
     "A function or decorator only offers incremental evaluation if it implements it and, for a decorator, if the wrapped function offers it too. "
     "Algorithms request it only after checking that the function offers it.",
     ["inputs"], "every bit vector, instance and set of flipped bits",
     "Tests compare incremental and full evaluation on random samples of a few instances.",
     ["lib/hnco/functions/collection", "lib/hnco/functions/modifiers", "lib/hnco/algorithms/local-search"],
     [("evaluate_incrementally / provides_incremental_evaluation", "lib/hnco/functions")],
     "closed-form (polynomial) summaries of evaluation loops and term-by-term comparison of changes", NOTE +
     "Arithmetic over the reals; flipped bits distinct and in range. ", ["evaluate_incrementally"])

prop("P07", "Parallel evaluation of a population gives the sequential result",
     "Evaluating a population, sequentially or in parallel, evaluates each individual once and gives it the value of its own bit vector; in parallel, the value is computed by the thread's own copy of the function through the safe evaluation, each iteration writing only its own slot. "
     "Afterwards every evaluation is accounted exactly once, in population order, with its own bit vector and value, on the first function, so that budgets, targets and reports behave as if evaluated sequentially. "
     "The threads' functions are built identically, and a safe evaluation changes neither the function nor any shared global state.",
     ["schedules", "inputs"], "every number of threads, every interleaving, every population",
     "Tests run single-threaded or sample one schedule; a race or a lost account rarely shows.",
     ["lib/hnco/algorithms/population.cc", "lib/hnco/algorithms/population.hh", "lib/hnco/functions", "app/command-line-application.cc"],
     [("Population::evaluate_in_parallel", "lib/hnco/algorithms/population.cc"), ("evaluate_safely of every function", "lib/hnco/functions")],
     "abstract interpretation of the parallel loop (per-iteration write sets) + interprocedural effect analysis of safe evaluation", NOTE +
     "Aliasing between distinct thread functions is excluded by construction check only. ", ["evaluate_in_parallel", "evaluate_safely", "update"])

prop("P08", "The solution an algorithm reports is a coherent pair",
     "After maximize (completed, or interrupted by an exception once a first solution is held) followed by finalize, the solution reported by an algorithm is a pair: its value is the value the function gave for exactly its bit vector. "
     "This holds whatever the strategy (restarts, incremental evaluation, populations, external solvers), for every algorithm of the library.",
     ["histories", "inputs", "faults"], "every algorithm, every function, every interruption point",
     "Tests check the best value on easy functions, never re-evaluate the reported bit vector after an interruption.",
     ["lib/hnco/algorithms"], [("IterativeAlgorithm::set_solution / update_solution, finalize of each algorithm", "lib/hnco/algorithms")],
     "trace-partitioned abstract interpretation of init/loop/finalize of every algorithm with a pairing invariant", NOTE +
     "The function is taken as deterministic; OnePlusLambdaCommaLambdaGa and SteepestAscent are reported undecided, not verified. ",
     ["get_solution", "maximize", "finalize"])

prop("P09", "Algorithms never lose the best solution they have found",
     "After every completed iteration, the value an algorithm reports is at least every value it has obtained from the function so far (the intermediate mutants of the (1+(lambda,lambda)) EA excepted), and it never decreases during a run. "
     "Algorithms with a replaceable acceptance test use it, and by default it accepts a candidate at least as good as the current solution.",
     ["histories", "inputs"], "every sequence of function values",
     "Tests sample a few seeds on functions where a lost best solution is found again.",
     ["lib/hnco/algorithms"], [("update_solution, set_solution, acceptance tests", "lib/hnco/algorithms")],
     "abstract interpretation of one arbitrary iteration from an arbitrary invariant state, ordering facts on values", NOTE +
     "External solvers (Ltga, Hboa, P3) covered at their evaluator only. ", ["get_solution", "update_solution"])

prop("P11", "Selection ranks the population by its current values, best first",
     "Sorting a population orders it by decreasing value over the requested ranks, and the accessors of the i-th best or worst individual return the bit vector, value or index at exactly that rank. "
     "Algorithms read ranks only while they were computed from the population's current values, and learn from (or move away from) the best (or worst) ranked individuals, never from arbitrary positions. "
     "Comma and plus replacement keep the best individuals of all competitors, each with its own value, and a tournament returns the best of its participants.",
     ["inputs", "histories"], "every population, every assignment of values, every permutation",
     "Tests look at the outcome of whole runs, which still succeed on easy functions with a wrong ranking.",
     ["lib/hnco/algorithms/population.hh", "lib/hnco/algorithms/evolutionary-algorithms/selection.hh",
      "lib/hnco/multiobjective/algorithms/random-selection.hh", "lib/hnco/algorithms/probability-vector"],
     [("Population::sort, get_best_*, get_worst_bv", "lib/hnco/algorithms/population.hh"), ("CommaSelection/PlusSelection::select", "lib/hnco/algorithms/evolutionary-algorithms/selection.hh")],
     "symbolic comparator/accessor evaluation + typestate of ranks over every algorithm", NOTE, ["sort", "get_best_bv", "select"])

prop("P10", "Neighborhood moves are exact and reversible",
     "Proposing a move flips in the candidate exactly the reported bits and nothing else; keeping it makes the origin equal to the candidate, forgetting it makes the candidate equal to the origin again; mutating or mapping a bit vector flips exactly the sampled bits of the input and leaves the neighborhood where it was. "
     "Every sample starts afresh and consists of distinct valid positions: one for a single flip, the radius for a sphere, between one and the radius for a ball, and, for standard bit mutation, at least one unless empty mutations are allowed, in which case they can occur whatever the sampling method; its mutation rate is the one given (one over the size by default), whatever the sampling method. "
     "Local search algorithms keep or forget every proposed move exactly once, and neighborhood iterators enumerate each neighbor of the origin by restoring the previous flip before making the next.",
     ["histories", "inputs"], "every sequence of moves, every sample, every bit vector size",
     "Tests run a search to the end; an accumulated or duplicated flip only slows it down.",
     ["lib/hnco/neighborhoods/neighborhood.hh", "lib/hnco/neighborhoods/neighborhood.cc", "lib/hnco/neighborhoods/neighborhood-iterator.cc", "lib/hnco/algorithms/local-search"],
     [("Neighborhood::propose/keep/forget/mutate/map", "lib/hnco/neighborhoods/neighborhood.hh"), ("sample_bits of each neighborhood", "lib/hnco/neighborhoods/neighborhood.cc")],
     "symbolic evaluation of moves, loop analysis of sampling, typestate of propose/keep/forget", NOTE +
     "That the loop of bernoulli_trials stops with exactly k bits is numeric and not decided. ", ["propose", "keep", "forget", "mutate", "get_flipped_bits"])

prop("P12", "Runs follow the iteration protocol and start afresh",
     "A run stores the given functions, initialises once, then iterates: exactly the requested number of times if that number is positive, otherwise without limit, and in both cases stops early only after an iteration has declared itself the last one. "
     "Each iteration is logged once, after it, if and only if there is something to log. "
     "A run is independent of earlier runs of the same algorithm object: stop flags, counters, adaptive parameters and learned models which an iteration reads and changes are set again when a run starts; a multiobjective run finalizes itself when it completes.",
     ["histories", "inputs"], "every number of iterations, every stopping iteration, every sequence of runs of one object",
     "Tests run each algorithm object once, mostly without an iteration limit.",
     ["lib/hnco/algorithms", "lib/hnco/multiobjective/algorithms"],
     [("IterativeAlgorithm::loop / maximize", "lib/hnco/algorithms/iterative-algorithm.cc"), ("init / iterate of each algorithm", "lib/hnco/algorithms")],
     "abstract interpretation of the main loop with a ghost iteration count + first-access/write-set analysis of every algorithm", NOTE +
     "Fields whose first access is ambiguous (non-const method call, element write) are taken as overwritten. ", ["maximize", "set_num_iterations", "init", "iterate"])

prop("P15", "Runs are reproducible from the seed",
     "All randomness of the library and programs comes from one engine, seeded with the recorded seed: giving a seed (option or set_seed) determines every number drawn after it, and resetting the generator replays the same sequence. "
     "No other engine, copy of the engine, clock or system entropy takes part, no distribution keeps state across a reset, and the bundled solvers draw from the shared engine or from one seeded from it. "
     "The programs set the seed (the given one if there is one, otherwise one chosen from the clock) before anything is drawn, and library code never reseeds.",
     ["histories", "inputs"], "every seed, every program, every sequence of draws",
     "Tests fix no expected sequence; an unseeded source gives different, equally plausible results.",
     ["lib/hnco/random.cc", "lib/hnco", "app"],
     [("Generator::set_seed/reset/uniform/normal", "lib/hnco/random.cc"), ("main / CommandLineApplication::init", "lib/hnco/app/application.cc")],
     "whole-program source/sink scan + symbolic evaluation of seeding + call-graph ordering", NOTE +
     "Iteration over pointer-keyed containers and uninitialised reads are outside the scan. ", ["set_seed", "reset", "uniform", "normal"])

prop("P24", "Command-line options reach the component they name",
     "Every option documented for hnco, hnco-mo, ffgen and mapgen is accepted with its argument, converted without loss, defaults to the documented value and is shown under its own name; one without default is refused when not given; an unknown option or selector value is an error. "
     "Each documented selector value (function, algorithm, map, neighborhood, iterator, generator, representation) builds the component its description names, and each parameter of a component comes from the option of the same name and group, whenever there is one. "
     "Each decorator of the function (map, prior noise, parsed modifier, minimization, Gaussian noise, tracker, budget, cache, stop on maximum or target) is present if and only if its option asks for it, with the documented argument and order, for every combination of options.",
     ["inputs"], "every option, every value of every selector, every combination of decorator options",
     "Tests run the programs with a few options; most options are never given, and a misrouted one still gives plausible results.",
     ["lib/hnco/app", "lib/hnco/multiobjective/app", "app"],
     [("HncoOptions, FfgenOptions, MapgenOptions", "lib/hnco/app/hnco-options.cc"), ("CommandLineAlgorithmFactory::make", "lib/hnco/app/algorithm-factory.cc"),
      ("CommandLineFunctionFactory::make", "lib/hnco/app/function-factory.cc"), ("DecoratedFunctionFactory", "lib/hnco/app/decorated-function-factory.cc")],
     "AST dataflow from option table to component, JSON option specifications as oracle; path-sensitive evaluation of the decorator chain", NOTE +
     "Names of setters and constructor parameters are trusted to say what they set (P14 checks setters). ", ["get_", "with_", "make_function_controller"])

prop("P27", "Programs report what happened",
     "A run of hnco ends in one of three ways and says which: reaching the target gives status 0, success and the solution that reached it; completing or exhausting the budget gives the finalized algorithm's solution and status 2 if stopping on the maximum was asked for, else 3 if a target was given, else 0; an error gives a nonzero status in every program. "
     "The results are one JSON object whose fields are the tracker's last improvement (value, number of evaluations), the total number of evaluations, the evaluation time, the total time if and only if asked for, success if and only if there was a target, and the cache's lookup ratio if and only if there is a cache; results, solution and description are printed or saved if and only if asked for, each to its own path, the solution through the map if and only if the concrete solution is asked for, the description always from the search space. "
     "All function copies are built from the same random state, the controllers wrap the copy the algorithm uses first, the algorithm has the function's size, questions about the function are answered as it answers them and a loaded solution is refused unless it fits; hnco-mo shows exactly the individuals of the first front, each with its own values.",
     ["inputs", "histories"], "every combination of output options, every way a run can end, every number of threads",
     "Tests check exit codes of a few commands and never look at the results file, nor at descriptions with a map.",
     ["lib/hnco/app/application.cc", "lib/hnco/multiobjective/app/application.cc", "app"],
     [("CommandLineApplication::run", "lib/hnco/app/application.cc"), ("CommandLineApplication::run (hnco-mo)", "lib/hnco/multiobjective/app/application.cc"), ("main", "app/hnco.cc")],
     "abstract interpretation of the application per option combination and run outcome", NOTE +
     "The numeric text formatting of values and actual file-system writes are not modelled. ", ["run", "get_trigger", "get_last_improvement"])

prop("P22", "Maps compute the transformation they define",
     "For every input, a translation adds its bit vector, a permutation reads bit sigma(i) into bit i, linear and affine maps multiply by their matrix modulo 2 (and add their vector), an injection writes input bit j to position i_j, a projection reads it from there, a composition applies the inner map then the outer one, and a transvection-sequence affine map applies its transvections from first to last and then adds its vector; inverting it gives the inverse map. "
     "Input and output sizes, and surjectivity, are announced as they are: a linear or affine map is surjective if and only if the rank of its matrix is its number of rows, a composition only if both maps are, an injection only if both sizes are equal. "
     "Random maps have the requested dimensions and, if asked for, are surjective (impossible dimensions are refused); each sampling mode of transvection sequences gives a new sequence with its documented structure (distinct destinations or sources, disjoint pairs, commuting, consecutive non-commuting), and an unknown mode is refused.",
     ["inputs", "histories"], "every map class, every input, every dimension, every sampling mode, every earlier content",
     "Tests try a few random maps of fixed size through round trips, which a pair of consistent errors passes.",
     ["lib/hnco/maps/map.hh", "lib/hnco/maps/map.cc", "lib/hnco/maps/transvection.cc"],
     [("map / get_input_size / get_output_size / is_surjective / random of each map", "lib/hnco/maps/map.cc"), ("Transvection, ts_random*, ts_multiply", "lib/hnco/maps/transvection.cc")],
     "closed forms by abstract interpretation, compared at a symbolic index by truth tables; loop and call-order analysis", NOTE +
     "The uniformity of random maps is not decided. ", ["map", "is_surjective", "random", "invert", "ts_"])

prop("P28", "Bit vector, bit matrix and permutation primitives are exact",
     "For every input of every size: adding bit vectors is the bitwise sum modulo 2, flipping changes exactly the given positions, weight, distance and dot product count what they name, conversions to and from integers, strings and boolean vectors preserve each bit and its position (bit 0 least significant). "
     "Matrix resizing, identity, transposition, row and column operations and products give exactly the documented entries and leave the others unchanged; solving and inverting apply to the right-hand side the same row operations as to the matrix; a random permutation is a shuffle of the identity.",
     ["inputs"], "every bit vector, matrix and permutation, of every size, every index",
     "Tests sample random vectors and matrices of fixed size and check mostly round trips and small identities.",
     ["lib/hnco/bit-vector.hh", "lib/hnco/bit-vector.cc", "lib/hnco/bit-matrix.hh", "lib/hnco/bit-matrix.cc", "lib/hnco/permutation.hh"],
     [("bv_*", "lib/hnco/bit-vector.cc"), ("bm_*", "lib/hnco/bit-matrix.cc"), ("perm_*", "lib/hnco/permutation.hh")],
     "closed forms by abstract interpretation (recurrence solving), compared at symbolic indices by truth tables over bit atoms", NOTE +
     "Pivot search and the validity predicates are not decided. ", ["bv_", "bm_", "perm_"])

prop("P14", "Configuration takes effect",
     "Every parameter set on an algorithm, operator, neighborhood, function or controller is stored unaltered, each in a member of its own which the matching getter returns; it is read by the code which runs (not only by assertions or constructors), is not overwritten by running, and is handed unaltered to the component it configures at the start of each run. "
     "Each logging flag makes its own quantity part of the log, and an algorithm has something to log if and only if at least one of its logging flags is set. "
     "Constructor parameters reach the members they are named after, and same-named arguments are not exchanged; unless set, nothing is logged and the fixed mutation rate and probability margins are 1/n.",
     ["inputs", "histories"], "every setter of the library, every value, every combination of logging flags",
     "Tests keep the defaults of most parameters, and a parameter without effect gives the default behaviour.",
     ["lib/hnco"],
     [("set_* of every class", "lib/hnco/algorithms"), ("init of each algorithm", "lib/hnco/algorithms"), ("log / set_something_to_log", "lib/hnco/algorithms")],
     "abstract interpretation of setters + access analysis of members over class hierarchies and call graph", NOTE +
     "A parameter read at several places is required to be read, not to be read at each of them. ", ["set_"])

prop("P21", "Variables are decoded from consecutive disjoint slices of the bit vector",
     "For every representation, every start position and every bit vector, unpack() reads exactly the size() bits from the start position, each with its own weight, and returns a value in the declared domain (integer within bounds, category below the number of categories, a permutation sorted by the decoded keys). "
     "Every function adapter decodes its variables one after the other from position 0, variable i with representation i, advances by exactly the size of the representation just used, uses up get_bv_size() bits, passes every decoded variable to the adapted function in evaluate() and describe() alike, and applies the converter named in its type to each value.",
     ["inputs"], "every bit vector, every mix of representations of different sizes, every number of variables",
     "Tests use one or two fixed representations; errors in offsets show only with several representations of different sizes or beyond the first variable.",
     ["lib/hnco/representations", "lib/hnco/functions/multivariate-function-adapter.hh", "lib/hnco/functions/universal-function-adapter.hh", "lib/hnco/functions/permutation-function-adapter.hh",
      "lib/hnco/multiobjective/functions/multivariate-function-adapter.hh", "lib/hnco/multiobjective/functions/universal-function-adapter.hh", "lib/hnco/functions/converter.hh"],
     [("unpack()", "lib/hnco/representations"), ("MultivariateFunctionAdapter", "lib/hnco/functions/multivariate-function-adapter.hh"), ("UniversalFunctionAdapter", "lib/hnco/functions/universal-function-adapter.hh")],
     "abstract interpretation with closed forms of loops: the range of bits read by each representation is compared with its size(), the positions at which an adapter decodes are proved to form one chain from 0 to get_bv_size(), for every instantiated template",
     "weights of float representations are compared exactly (no rounding); representations held in a std::variant are analysed for one alternative of the visitor",
     ["representation", "unpack", "adapter", "slice", "variable", "converter", "integer", "float", "categorical", "complex", "value set"])

prop("P23", "Multiobjective optimization: dominance, Pareto fronts, NSGA-II survivors",
     "dominates(a, b) holds if and only if a is at most b in every objective and less in at least one. The front computed for an individual is the number of the peeling pass which removes it: front 0 holds exactly the individuals which no individual of the population dominates, and each further front those which only earlier fronts dominate; every individual gets a front. "
     "In NSGA-II a bit vector and its value always move together, all parents and all offspring compete, survivors are taken by increasing front and, within the front which is cut, by decreasing crowding distance (reset at each iteration, infinite at both ends, the sum of the gaps between neighbours elsewhere), mating compares front first and then crowding distance of the individual itself, and the solutions returned are exactly the final parents of front 0, each with its own value, also when the algorithm is run again.",
     ["inputs", "histories"], "every population, every number of objectives, every order of the individuals, every sequence of runs",
     "The suite checks the fronts of one fixed population and never the selection; errors show only for particular orders of the individuals, ties, or a second run.",
     ["lib/hnco/multiobjective"],
     [("dominates()", "lib/hnco/multiobjective/functions/value.hh"), ("Nsga2ParetoFrontComputation::compute", "lib/hnco/multiobjective/algorithms/pareto-front-computation.hh"), ("Nsga2::iterate, finalize", "lib/hnco/multiobjective/algorithms/nsga2.cc")],
     "product of the sign automaton of the domination test with its definition; path-wise check of the peeling loops with domination uninterpreted; symbolic evaluation of comparators and transfers", NOTE,
     ["dominates", "pareto", "nsga2", "front", "crowding", "multiobjective"])

prop("P13", "Benchmark functions compute their definition and announce their maximum",
     "For every bit vector, evaluate() of each function of the collection (OneMax, LeadingOnes, Needle, Ridge, Plateau, Jump, DeceptiveJump, FourPeaks, SixPeaks, Trap, linear, Walsh, quadratic, NK landscape, Ising, MaxSat, Max-not-all-equal-3-Sat, Labs, SummationCancellation, partition, equal products, travelling salesman) returns the value of its published definition for the instance data it holds, without reading outside that data. "
     "A function which announces a known maximum announces exactly the largest value it takes over all bit vectors; the number of variables is that of its instance or of the constructor parameter.",
     ["inputs"], "every bit vector, every instance, every parameter (threshold, gap, number of traps, flags such as periodic boundary conditions)",
     "Tests evaluate a few chosen vectors of a few functions (most often the maximum), so an error at a threshold, a boundary term or in an instance parameter goes unseen.",
     ["lib/hnco/functions/collection"],
     [("evaluate(), get_maximum(), has_known_maximum(), get_bv_size()", "lib/hnco/functions/collection")],
     "closed forms of evaluate() and get_maximum() derived from the source by abstract interpretation (sums, products, guarded terms, least index of search loops); the formulas are compared with the reference formula over all assignments of small size", NOTE +
     "The closed form holds for every input; its equality with the definition is decided over every bit vector of the small sizes and the instance data listed in the evidence. Hiff and LongPath values have no closed form and are not compared. ", ["evaluate", "get_maximum", "function"])

prop("P29", "Probabilistic models are learned, bounded and sampled as defined",
     "The operations on probability vectors and on first and second Walsh moments (uniform start, adding samples, averaging, moving towards or away at the learning rate, bounding, norms and distances) give every component its defined value, without reading outside the model. "
     "In each iteration of PBIL, its negative selection variant, UMDA, MMAS, the compact genetic algorithm, the random affine map UMDAs, HEA and Boltzmann machine PBIL, the new model is exactly the one defined by the previous model, the selected individuals and the parameters, kept within its bounds, every individual is sampled anew, and a run starts from the uniform model. "
     "Gibbs samplers, herding, MIMIC and crossovers decide each bit by its own draw (or the sign of its local field) from the bits and parameters its definition names.",
     ["inputs", "histories"], "every model, population, draw and parameter value",
     "Tests only check that these algorithms run; a biased or unbounded model still optimizes easy functions.",
     ["lib/hnco/algorithms/probability-vector", "lib/hnco/algorithms/walsh-moment", "lib/hnco/algorithms/mimic.cc", "lib/hnco/algorithms/evolutionary-algorithms/crossover.cc"],
     [("pv_* functions", "lib/hnco/algorithms/probability-vector/probability-vector.cc"), ("TriangularMoment, FullMoment", "lib/hnco/algorithms/walsh-moment/walsh-moment.cc"),
      ("iterate methods", "lib/hnco/algorithms")],
     "closed forms derived by abstract interpretation, compared with the definitions on small instances", NOTE +
     "Closed forms hold for all inputs in real arithmetic; their comparison with the definition is bounded to small instances; samplers by one step of their loop.",
     ["iterate", "sample", "recombine"])

prop("P17", "Assertions only observe",
     "A program compiled without assertions behaves as the one compiled with them, as long as no assertion fails. "
     "No condition of an assertion evaluates the objective function, draws a random number, or changes an object, container, stream or variable that exists outside the condition, directly or through any function it calls.",
     ["inputs", "histories"], "every assertion of the library and programs, every overrider it may call",
     "All tests run in a single build configuration, so that none of them can compare two.",
     ["lib/hnco", "app"],
     [("assertions", "lib/hnco")],
     "interprocedural effect analysis of assertion conditions", NOTE +
     "Standard containers and algorithms are modelled; Python overriders are outside the analysis.",
     ["assert", "NDEBUG"])

prop("P18", "Saved instances and maps reload as they were; file errors are reported",
     "What an instance or map writes when saved is read back in the same order into the same members, and together with what loading recomputes these are all the members on which its evaluation, mapping and queries depend; every way to make an instance (load, random, generate) sets all of these members. "
     "The generators write, for each type of function or map, what hnco reads for this type; MaxSat, Sudoku, QUBO and TSP files are read and written in their documented format, with every number and index checked before it is used. "
     "A file which cannot be opened or is malformed is refused with an error, and results, solutions and instances are never silently lost.",
     ["inputs", "faults"], "every instance, file content and unwritable path",
     "Tests reload one instance of a few classes; malformed files and unwritable paths are endless.",
     ["lib/hnco/serialization.hh", "lib/hnco/functions/collection", "lib/hnco/maps", "lib/hnco/app", "app"],
     [("save_to_archive, load_from_archive", "lib/hnco/serialization.hh"), ("load_, save_", "lib/hnco/functions/collection/max-sat.cc"), ("load", "lib/hnco/functions/collection/qubo.cc"), ("make_map", "lib/hnco/app/decorated-function-factory.cc"), ("generate_map", "app/mapgen.cc")],
     "abstract interpretation of save and load over archives as sequences of values; typestate of file streams; closed forms of written text against an independent reader", NOTE +
     "The archive library and the number formatting of streams are trusted; the text formats are compared on small instances of the closed form.",
     ["archive", "stream"])

prop("P30", "Each search step is the one its algorithm defines",
     "Complete search evaluates every bit vector and random search a fresh one per iteration; first and steepest ascent move to the first, or to one of the best, strictly better neighbors and stop when there is none; random local search keeps a candidate iff its acceptance test says so and stops after the given number of consecutive failures; a random walk always moves; simulated annealing always accepts ties and improvements, a deterioration iff a uniform draw is below exp(beta * delta), multiplies beta by its ratio after the given number of accepted deteriorations, and starts from the beta which accepts the average deterioration with the initial probability; a restart runs and finalizes the algorithm once per iteration. "
     "In evolutionary algorithms each offspring is mutated, from a parent chosen anew among all parents (in the genetic algorithm two tournament winners, recombined with the crossover probability), the (1+(lambda,lambda)) GA picks among all best mutants and crossovers and accepts ties, and adaptive mutation rates and centers (self-adjusting, two-rate, information-theoretic) follow their update rules within their bounds. "
     "No step reads a ranked individual outside the population, and every run starts from the documented initial state.",
     ["inputs", "histories", "schedules"], "every function value, draw, parameter and state an iteration may meet",
     "Tests check that easy functions are optimized; a wrong acceptance rule, temperature or mutation rate still optimizes them.",
     ["lib/hnco/algorithms/local-search", "lib/hnco/algorithms/evolutionary-algorithms", "lib/hnco/algorithms/complete-search.cc", "lib/hnco/algorithms/random-search.cc", "lib/hnco/algorithms/decorators/restart.cc"],
     [("iterate, init", "lib/hnco/algorithms/local-search"), ("iterate, init", "lib/hnco/algorithms/evolutionary-algorithms"), ("init_beta", "lib/hnco/algorithms/local-search/simulated-annealing.cc"), ("ml_update, igo_update", "lib/hnco/algorithms/evolutionary-algorithms/it-ea.cc")],
     "paths of one iteration derived by abstract interpretation over unknown values and draws, compared with the definition of the step", NOTE +
     "Paths and closed forms hold for all inputs in real arithmetic; their comparison with the definition is bounded to small instances; steepest ascent by induction over its loop.",
     ["iterate", "init"])

prop("P25", "The Python module gives each name its C++ meaning",
     "Every class, method, member, enumeration value and exception which the Python module exposes stands for the C++ entity of the same name, and an exposed class keeps the exposed bases of its C++ class, so that it is accepted wherever they are. "
     "A class written in Python is called by the library as a C++ one would be: each overridable method of a class constructible from Python looks up its own name, passes all parameters in order, result parameters by reference, and falls back on the C++ method when Python does not redefine it. "
     "Iterating in Python over an iterator yields its elements until there is none left, and the conversion to a string shows the object it is called on.",
     ["inputs", "histories"], "every exposed name and every Python class and argument used through the module",
     "No test imports the module; a name bound to a sibling method still compiles and imports.",
     ["bindings/hnco.cc"], [("pybind11_init_hnco", "bindings/hnco.cc"), ("trampoline classes Py*", "bindings/hnco.cc")],
     "query over the typed syntax tree of the module: registrations against names, types and hierarchy; argument forwarding of trampolines", NOTE +
     "Complete over the registrations of bindings/hnco.cc; lifetimes of objects shared between Python and C++ are not decided.",
     ["bindings", "hnco.cc"])

prop("P31", "Crossover and random selection do what they are named after",
     "At every position the offspring of a crossover gets the bit which one of its two parents has there: either one in uniform crossover, that of the second parent exactly when the draw with the crossover bias succeeds in biased crossover. "
     "A random selection returns the individual drawn with one weight per individual of the current population: equal weights (uniform), its value (fitness proportionate), or a weight proportional to exp(beta * value) (Boltzmann). "
     "Tournament selection holds tournaments of the configured size between distinct individuals, taken in turn from a shuffle of the whole population, each won by a participant no other one beats.",
     ["inputs", "histories"], "every pair of parents, population, parameter and draw",
     "Tests only see that algorithms which use the operators optimize easy functions, which they do with the wrong weights, parent or positions.",
     ["lib/hnco/algorithms/evolutionary-algorithms/crossover.cc", "lib/hnco/algorithms/evolutionary-algorithms/crossover.hh", "lib/hnco/algorithms/evolutionary-algorithms/random-selection.cc", "lib/hnco/algorithms/evolutionary-algorithms/random-selection.hh", "lib/hnco/multiobjective/algorithms/random-selection.hh"],
     [("recombine, set_bias", "lib/hnco/algorithms/evolutionary-algorithms/crossover.cc"), ("init, select", "lib/hnco/algorithms/evolutionary-algorithms/random-selection.cc")],
     "abstract interpretation of each operator: source of every position of the offspring per draw; individual returned, range and closed form of the weights", NOTE +
     "Holds for all sizes and values in real arithmetic; that the standard distributions follow their weights is assumed (N01).",
     ["crossover", "random-selection"])

prop("P32", "Components refuse parameters they cannot work with",
     "A constructor or setter which cannot work with a parameter (no bits, individuals or objectives, a gap below one, a size which is not a multiple of the block, trap or prefix size or not a power of two, a projection larger than its input, a surjective map with more rows than columns, fewer offsprings than parents, too small a population for Mimic, function and map of different sizes, a tournament size outside its range) throws std::runtime_error. "
     "It does so whether or not assertions are compiled in. "
     "It accepts every parameter inside the documented domain, boundaries included.",
     ["inputs"], "every parameter value",
     "Tests construct components with parameters which are valid and away from the boundaries.",
     ["lib/hnco/algorithms/algorithm.hh", "lib/hnco/algorithms/population.hh", "lib/hnco/functions/collection/jump.hh", "lib/hnco/functions/collection/trap.hh", "lib/hnco/functions/collection/long-path.hh", "lib/hnco/functions/collection/theory.cc", "lib/hnco/functions/collection/cancellation.hh", "lib/hnco/maps/map.hh", "lib/hnco/maps/map.cc", "lib/hnco/algorithms/mimic.hh", "lib/hnco/multiobjective/algorithms/random-selection.hh"],
     [("constructors which throw", "lib/hnco"), ("LinearMap::random, AffineMap::random", "lib/hnco/maps/map.cc"), ("set_tournament_size", "lib/hnco/multiobjective/algorithms/random-selection.hh")],
     "abstract interpretation of each constructor and setter, assertions ignored: path conditions of return and throw evaluated on both sides of every boundary of the documented domain", NOTE +
     "Conditions are terms over the parameters; they are evaluated on a grid around each boundary, so a condition wrong only far from every boundary would pass.",
     ["validation", "constructors"])

# ---------------------------------------------------------------- not applicable
na("N01", "Random draws follow the distribution they name",
   "Uniform, Bernoulli, binomial, Gaussian and permutation draws, random instances and noise have the probability distribution they are documented to have.",
   ["inputs"], "every seed and parameter", "A statistical test accepts or rejects a sample, not a distribution.",
   ["lib/hnco/random.hh", "lib/hnco/bit-vector.cc"], [("draws", "lib/hnco")],
   "A statement about probability measures; the static part (who draws, from which distribution object, how often, what the draw decides) is decided in P10, P15, P22 and P29.")
na("N02", "Algorithms make progress towards the maximum",
   "Given enough evaluations, the algorithms improve on their initial solution and, where theory says so, find the maximum.",
   ["schedules", "inputs"], "every function and seed", "Tests run a few easy functions.",
   ["lib/hnco/algorithms"], [("iterate methods", "lib/hnco/algorithms")],
   "Convergence depends on the function and on chance; no sound static argument bounds it.")
na("N03", "Floating-point results are accurate",
   "Matrix inversion, Walsh transforms, averages and moments are within a small error of the exact result.",
   ["inputs"], "every input magnitude and size", "Tests compare small well-conditioned cases.",
   ["lib/hnco/matrix.hh", "lib/hnco/functions/collection"], [("matrix inversion", "lib/hnco")],
   "Needs a rounding-error bound over runtime quantities of unbounded size and condition; the exact-arithmetic content is decided in P13, P28 and P29.")
na("N04", "Bundled solvers are correct",
   "GOMEA, P3, LTGA, hBOA and the expression parser compute what their authors document.",
   ["inputs"], "every problem", "Tests only call them.",
   ["lib/hnco/algorithms/gomea", "lib/hnco/algorithms/fast-efficient-p3"], [("adapters", "lib/hnco/algorithms")],
   "Third-party code with no specification here; only its boundary (evaluations, reported pair, draws) is decided, in P08 and P15.")
