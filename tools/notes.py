# property -> (technique, level note); read by make_manifest.py
NA = {}
NOTE['C01'] = ('property-based testing: random models vs independent NumPy reference evaluation (differential)',
  'Random hierarchies of up to 8 components with promotion/explicit/input-to-input connections, units, src_indices, pass-by-object and both vector implementations; every variable compared at two input points. Bounded by size and number of cases; serial only.')
NOTE['C02'] = ('property-based testing: random models vs independent dense chain-rule totals (differential)',
  'Random hierarchies (feed-forward, cyclic, implicit, self-differencing groups), random subsets of inputs and outputs, indices on design variables and responses; fwd, rev and fd totals against an analytic NumPy reference. Bounded by size and number of cases; fd only to truncation error.')
NOTE['C03'] = ('property-based testing: random solver/relevance/format choices vs one dense chain-rule reference (differential + metamorphic)',
  'Every group of a random model gets a random linear solver (Gauss-Seidel, GMRES with/without preconditioner, dense LU/solve by products or assembled, PETSc KSP serially); relevance reduction and groups solved together; histories of requests with changing mode/format/sparsity. Iterative solvers to 1e-5; no MPI.')
NOTE['C04'] = ('property-based testing: planted Jacobian errors in random models vs exact partials/totals (fault injection + differential)',
  'check_partial_derivatives / check_total_derivatives on random models, points and options, with at most one wrong entry planted in a component Jacobian (both modes, or forward/reverse only); all reported blocks and norms compared with the exact ones, values unchanged afterwards. The layout of the printed report is only checked for naming every component.')
NOTE['C05'] = ('property-based testing: random dependency graphs and histories of add/connect/set_order/setup vs topological oracle',
  'Random graphs of up to 9 components over nested groups (feed-forward and cyclic, value and pass-by-object edges), automatic and user orders, rejected orders, repeated setup with added connections and subsystems; order of execution, reported automatic order and broken edges, and one-pass values are checked against the graph.')
NOTE['C06'] = ('property-based testing: random coupled contractions and solver trees, planted faults, repeated solves; independent solution and residual oracle',
  'NLGaussSeidel (with/without Aitken), Newton (solve_subsystems on/off, own or shared linear solver) and Brent, nested up to two levels; every solve of every solver is judged by independently computed residuals, iteration count and error report; last of several solves compared with a fresh problem. Liveness only on contractions.')
NOTE['C07'] = ('property-based testing: random bounded implicit systems and feasible starts; bound invariant at every evaluation, convergence, bounded/unbounded differential, and a reference model of every tried point',
  'Newton with/without BackTracking at any level, scalar/1-D/2-D states, scalar/array/list bounds on either side, start inside or exactly on a bound. Every evaluated state is checked against its bounds; separable monotone systems must converge unless a state gets stuck exactly on its bound (known finding C07-sticky); runs where no bound matters must equal the unbounded run bit for bit.')
NOTE['C08'] = ('property-based testing: single ill-formed edits of random well-formed models, each with a well-formed twin; check_setup report vs graph oracle',
  '19 kinds of edit (unknown names, types, shapes, src_indices, units, two sources, promotions, differing promoted inputs) at a random place of a random hierarchy: setup must raise naming the offender, and must accept and run the twin. Reports of unconnected inputs, components without connections or outputs, cycles, out-of-order subsystems compared with an oracle on the graph; inside cycles only necessary and possible pairs are checked.')
NOTE['C09'] = ('property-based testing: random scaled design variables/responses and histories of set/get/run/gradient vs a NumPy reference of the documented scaling',
  'Scalar and array scalers (either sign) and adders, indices of 1-D/2-D variables, bounds, pass-by-object responses, buried variables; set_desvar with and without an index, get_* as dict and array, metadata bounds, driver.calc_gradient in every mode and format. Forward gradients with array design-variable scalers are a known finding (C09-fwd-scaler): only the listed wrong value is tolerated there.')
NOTE['C10'] = ('property-based testing: random convex programs vs an independent optimum (KKT-tight SciPy reference on NumPy functions), differential against plain SciPy',
  'Strictly convex objectives (minimised or, negated, maximised), box bounds, affine lower/upper/both/equality and convex quadratic constraints with indices, entries without bounds, scalings of either sign, every method of the wrapper on the problems it supports, analytic (fwd/rev) and fd gradients, repeated runs. Feasibility, optimal objective, model left at the reported optimum. Cases that plain SciPy misses as well (1 %) are labelled, not judged.')
NOTE['C11'] = ('property-based testing: record/read-back round trip of random histories, compared bit for bit with deep copies taken at recording time',
  'SQLite, HDF5 and in-memory recorders, one to three of them on the driver and on nested solvers, arbitrary floats (nan, inf, -0.0, subnormals), arrays, nested objects changed in place or replaced, success flags, messages, derivatives as dict or array, more than nine iterations; read through CaseReader by index and by name. HDF5 gets numbers only, as documented. Serial.')
NOTE['C12'] = ('property-based testing: random solver trees, recorders and pattern lists; trace oracle (enter/exit/execution counters vs records)',
  'Trees up to four levels with RunOnce, NLGaussSeidel, Newton (with/without sub-solves and line search), Brent; base, SciPy and DOE drivers; up to three recorders at up to three places; fd totals and repeated setup. Every record is matched to one iteration of the object it is attached to, its coordinate to the chain of enclosing iterations, its content to the include/exclude oracle.')
NOTE['C13'] = ('property-based testing: random design spaces, drivers, sizes and seeds; structural invariants of the design as the model sees it, seed metamorphic relation',
  'Uniform, full-factorial, Latin hypercube and optimised Latin hypercube over up to 8 scalar/array/2-D/indexed, scaled dimensions with scalar or per-entry bounds, 1 to 30 samples. Bounds, exact counts, every level combination once, every stratum once, no two dimensions copies of each other, same seed same design under a disturbed global generator. Distribution quality (how uniform, how optimised) is not judged.')
NOTE['C14'] = ('property-based testing: random case lists, failing subsets and worker/queue schedules; closed-form response oracle, supervised processes for deadlocks and left-overs',
  'CaseDriver and the DOE drivers, serial and with 2 to 4 worker processes whose queues and starts are delayed at random; analysis errors (component or unconverged solver), unexpected exceptions of several kinds; responses, success flags, messages, user recorder, repeated runs. Deadlock is judged by all threads sleeping. MPI load balancing is not available here.')
NOTE['C15'] = ('property-based testing: random unit expressions, prefixes, temperatures and library files vs an independent unit table (differential, round trip, metamorphic)',
  'Conversions between random products, quotients, powers and prefixed units of the shipped library against a table written from the SI definitions; refusal of incompatible units and of offset scales in products; arithmetic, comparison, roots and functions of PhysicalQuantity; user libraries with definitions in any order. Each case starts from a freshly imported library, so the order of lookups is part of the case.')
NOTE['C16'] = ('property-based testing: random assignment programs (AST) vs an independent evaluator with forward-mode dual numbers (differential)',
  'One to six assignments (whole, by index, by slice, scalar to array) over scalar and 1-D to 3-D variables with tricky and colon names, all documented functions, reductions, literals and spacings; values, initial values, units, Jacobian at two points, totals in both modes; pickled and copied components. Functions without a complex version are judged by value only. Unknown keywords must be refused by name.')
NOTE['C17'] = ('property-based testing: random systems, constraints, values and units vs closed forms (inverse map, signed difference, identity, affine conversion)',
  'LinearSystem of size 1 to 5, alone, chained or feeding a nonlinear component, at the root or in nested groups, under three nonlinear and four linear solver set-ups, changing matrices, totals with respect to A and b in fwd/rev/fd and partials; ConstraintComp on the ExecComp grammar with every comparator; IndepVarComp/ParamComp values of every type; UnitComp of every shape. Malformed arguments must be refused.')
NOTE['C18'] = ('property-based testing: random training sets vs independent reference predictors (simple and recursive co-Kriging, planes, inverse distances, least squares); differences of predictions; metamorphic relations',
  'Kriging up to 12 points and 3 inputs, co-Kriging up to 3 levels, nearest-neighbour kinds up to 7 inputs with every radial function, response surfaces up to 4 inputs; 1 to 3 outputs; histories of predict/linearize/retrain; permutation and affine changes of the data; arguments must not be modified. Correlation parameters are taken as trained; exactness only where the correlation matrix is well conditioned.')
NOTE['C19'] = ('property-based testing: random metamodels and histories vs surrogates trained directly on independently assembled matrices (position-sensitive stub surrogates and the real ones)',
  'One to four scalar/array inputs, one to three outputs, plain and 1 to 4 fidelities, every way of giving training data (attribute, keyword, connection; lists, arrays, nested lists, integers), warm and cold retraining, unequal data, setup again, derivatives fwd/rev/fd/partials with user/fd/cs components at four places of the tree. The surrogates themselves are C18.')
NOTE['C20'] = ('stateful property-based testing: random histories of declarations, reads, writes, locks and copies vs a reference dictionary',
  'Up to three dictionaries and 25 operations over values of every basic type, bounds, enumerations, deprecations, removal, global lock, deepcopy/pickle; the documented tables of the options of all solvers, drivers, recorders, components and derivative options (with their deprecated spellings) before and after setup, with a second instance that must not change. nan and equal-but-different values (True/1) are not offered.')
NOTE['C21'] = ('property-based testing: random models wrapped at random depths and exposures vs the NumPy reference of the wrapped model; wrapped drivers vs the same problem run alone (differential)',
  'Random wrapped hierarchies (feed-forward, cyclic, implicit), random exposed params/unknowns with a unit conversion at the boundary, one to three levels of SubProblem, promoted or not, placed up to two groups deep; histories of runs, new inputs, setup, meddling inside, totals in fwd/rev/fd and partials. Wrapped optimisers and DOEs (also under an outer DOE or fd, with text variables and failing points) visit the same points as the problem alone.')
NOTE['C22'] = ('property-based testing: random templates and histories of anchor/transfer operations vs a piecewise text model, read back through the parser (round trip); random files vs fields known by construction',
  'Templates and files of up to eight lines with delimiters of every kind (also those with a meaning in regular expressions), all float values including nan, inf, -0.0 and subnormals, numbers in every Fortran/C notation, quotes and backslashes; anchors forwards and backwards, arrays over several lines, tables, keys, fixed columns, comments, several parsers at a time, misfits and addresses outside. Words beginning with a digit are split as documented and not offered.')
NOTE['C23'] = ('property-based testing: write/read round trip of random namelists, rendered files in other notations vs known decks, reference model of loading into components',
  'Up to five groups (plain, free-form, repeated names) of cards with scalars, NumPy scalars, lists, 1-D and 2-D arrays of floats (incl. nan, inf, -0.0), integers, booleans, strings with quotes, slashes and exclamation marks, comments of all sorts; delimiters and terminators; text structure, titles, find_card, second round trip. Read: indices, repeat counts, rows, continuation lines, cards in header lines, Fortran exponents, every group end. load_model before/after setup with rules, ignore and single groups, untouched parameters, add_var/add_container.')
NOTE['C24'] = ('stateful property-based testing: random histories of inputs, runs, derivative requests, failures and setups vs a fresh problem (differential, bit for bit) and the NumPy reference',
  'One or two problems at a time: random feed-forward and cyclic models (analytic, matrix-free, implicit, fd, cs, groups with fd), library components (linear systems, metamodels, Brent, Newton, SubProblem, multifidelity) and drivers (optimisers, DOEs, cases). Operations: new inputs, run, run_once, totals in every mode, derivative checks, garbage in outputs, recorders, setup again, refused requests, runs and derivative requests that fail at any component call. Findings C24-fd-params (stale inputs after fd totals) and C24-locked (global lock) are tolerated as listed.')
NOTE['C25'] = ('property-based testing with injected faults: random commands, file sets, streams, directories and endings vs what the command itself recorded; processes are found by a token in their environment',
  'ExternalCode alone, in nested groups and components with directories, in cycles under NLGaussSeidel and Newton, histories of up to four runs (run, run_once, totals, partial checks); endings: success, every return code, fifteen signals, missing inputs/outputs/command, timeouts and exceptions while waiting, for eight kinds of stubborn processes. ShellProc, call, check_call and terminate with every kind of stream. Load-balanced remote execution does not exist here. POSIX only.')
NOTE['C26'] = ('stateful property-based testing: random writes through names, flat arrays, slices and sub-views of any vector of any system vs a reference store of every variable (model-based)',
  'Trees up to four levels with Group/ParallelGroup, promotion at any depth, scalars to 3-D and empty arrays, states, pass-by-object values, unit conversion, unconnected inputs; unknowns, residuals, parameters and the derivative vectors, also those of parallel variables of interest; complex-step storage and PetscImpl (serial). Inputs without a source hold the given object as it is; derivative vectors of groups of variables that are never solved together share storage by design.')
NOTE['C27'] = ('property-based testing: random models passing files, random directory trees; a model of every file on disk, compared with the whole scratch tree after each step',
  'FileRefs (text/binary, relative, absolute, with dots, through links, shared by inputs, the same file as the source) between up to five components in groups and components with relative, absolute and function-valued directories; runs, fd totals, setup again, another working directory; set-ups to refuse. build_directory over existing trees with and without force, absolute keys refused; find_files with patterns and predicates; find_up from every spelling of a start; nested directory contexts. Serial only.')
NOTE['C28'] = ('property-based testing: random nested models with promotion patterns and implicit/explicit connections vs a reference tree; listings are parsed and compared as sets with what the tree implies',
  'Up to seven components in groups up to four levels deep with names that are prefixes of each other, exact and wildcard promotion at every level, connections made in inner groups, cycles, states, pass-by-object variables, units, set orders. Iteration and search (all arguments), reading and writing by name and by path, list_connections (all arguments, patterns), list_states, list_params, list_unit_conv, dump, generate_docstring, model viewer data and pages (from the problem and from recorder files), tree drawing, name utilities. Layout of the text is not judged.')
NOTE['C29'] = ('property-based testing: random optimization problems posed to a recording stand-in of pyoptsparse that evaluates functions and gradients at random points, vs an analytic reference; injected faults',
  'pyoptsparse is not installed, so a stand-in with its documented interface plays the optimizer. One to three design variables (scalars to 2-D, indices, scalers, adders, bounds), two to five linear or quadratic components in groups, connected by name, promotion and source indices; eq/ineq/two-sided/linear constraints, also on design variables, several optimizers and gradient methods, active sets, failing models and linearizations, recorders, repeated runs. Array scalers of design variables only in reverse mode (finding C09-fwd-scaler).')
NOTE['C30'] = ('property-based testing: random models and histories of runs, derivative requests, failures, starts and stops; the profile is compared with an independent record of the calls and the results with an unprofiled twin',
  'Feed-forward and cyclic models with every kind of component, profiling set up before or after setup, on the problem or the root, own method tables, recorders; switched between operations and inside a run; failures inside runs and linearizations. Counts per call path are compared exactly in the tree, totals, proftotals, dump and page, for one raw file and for several; times only for consistency. Results must be bit for bit those without profiling.')
NOTE['C31'] = ('property-based testing: random sequences of sound and senseless declarations on drivers, components and groups against a reference model of what was accepted',
  'Five kinds of drivers (with any combination of supported features), names that repeat, do not exist, are computed or are objects; indices, bounds, scaling; components with every kind of variable, valid and invalid names, values and shapes; groups with repeated, reserved and invalid names and orders. After every refusal the declarations are compared with a deep copy made before. Values with an inconsistent shape and inputs without value and shape are not judged.')
