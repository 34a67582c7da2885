"""Writes properties.jsonl (kept as a script so the wording is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if observe: a['observe_at'] = observe
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    a['hook_needed'] = None
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

prop('C01', 'Data flow: connected inputs equal their sources, outputs follow from inputs',
 "After a model runs, every connected input holds its source's current value - reduced by its src_indices and converted to its own units, or the very object for pass-by-object variables - and every output holds exactly what its component computes from those inputs. "
 "This does not depend on how components are nested in groups, on names, on whether a connection is made by promotion or explicitly (at any level, including through other inputs), or on which flavour of group or vector implementation holds them.",
 ['programs', 'inputs'],
 'every model that can be assembled from components, nested groups, promotions, explicit connections, unit pairs, shapes and src_indices, and every input value',
 'Tests hold a few dozen fixed models; the interaction of nesting x promotion x explicit connection x src_indices x units x pass_by_obj is a product they only touch at points.',
 ['openmdao/core/problem.py', 'openmdao/core/group.py', 'openmdao/core/system.py', 'openmdao/core/vec_wrapper.py', 'openmdao/core/data_transfer.py', 'openmdao/core/basic_impl.py'],
 [('connection resolution', 'problem.py Problem._setup_connections, group.py Group._get_explicit_connections, system.py promotes'),
  ('name mapping', 'vec_wrapper.py VecWrapper.setup, problem.py _setup_variables / system.py _sysdata'),
  ('data transfer', 'group.py _setup_data_transfer, data_transfer.py DataTransfer.transfer'),
  ('unit conversion on read', 'vec_wrapper.py _TgtAccessor/_meta unit_conv accessors, problem.py _setup_units')],
 ['Problem.__getitem__', 'params/unknowns inside solve_nonlinear'])

prop('C02', 'Total derivatives equal the exact chain-rule derivatives',
 "For a converged model, the total derivatives of any requested outputs with respect to any requested independent inputs equal the exact chain-rule derivatives of the composed model, in forward mode, in reverse mode, under complex step, and (to truncation error) under finite difference. "
 "This holds for any nesting, promotion, src_indices (including repeated and partial indices), unit conversion, array shape, implicit states, cycles, sub-blocks that finite-difference themselves, and design-variable or constraint indices.",
 ['programs', 'inputs', 'configurations'],
 'every differentiable model, every choice of wrt/of lists and every derivative mode',
 'Tests compare derivatives on hand-written models where each feature appears mostly alone; derivative bugs appear when features combine (src_indices x units x nesting x mode).',
 ['openmdao/core/problem.py', 'openmdao/core/group.py', 'openmdao/core/system.py', 'openmdao/core/component.py', 'openmdao/core/vec_wrapper.py', 'openmdao/solvers/ln_gauss_seidel.py', 'openmdao/solvers/scipy_gmres.py'],
 [('gradient driver', 'problem.py calc_gradient, _calc_gradient_ln_solver, _calc_gradient_fd'),
  ('linear operator', 'group.py _sys_apply_linear, component.py apply_linear, system.py _sys_apply_linear'),
  ('reverse scatter', 'group.py _transfer_data(mode=rev), data_transfer.py'),
  ('fd / cs', 'system.py fd_jacobian, complex_step_jacobian')],
 ['Problem.calc_gradient'])

prop('C03', 'Linear solver, relevance and return-format choices never change derivatives',
 "The totals computed for a model are the same (to solver tolerance) whichever linear solver is used where it applies - GMRES, direct (either matrix construction and either solve method), linear Gauss-Seidel, with or without a preconditioner, per-group or at the top - and whether or not single-variable relevance reduction and parallel derivative groups are on. "
 "Dictionary and array return formats contain the same numbers in the requested order, and asking again, asking for subsets, or asking for derivatives in a different order gives the same answers.",
 ['configurations', 'programs'],
 'every assignment of linear solvers/options to the groups of every model, every request list and order, every relevance setting',
 'Tests fix one solver configuration per model; equality across configurations is a relation between runs that they do not state.',
 ['openmdao/solvers/scipy_gmres.py', 'openmdao/solvers/ln_direct.py', 'openmdao/solvers/ln_gauss_seidel.py', 'openmdao/solvers/petsc_ksp.py', 'openmdao/core/relevance.py', 'openmdao/core/problem.py', 'openmdao/core/group.py'],
 [('solvers', 'solvers/*.py solve'), ('relevance graph', 'core/relevance.py Relevance'), ('matrix assembly', 'group.py assemble_jacobian; ln_direct.py'),
  ('per-voi vectors', 'group.py dumat/drmat/dpmat; problem.py _setup'), ('return formatting', 'problem.py calc_gradient return_format')],
 ['Problem.calc_gradient'])

prop('C04', 'Derivative checking tools report the true error of user derivatives',
 "check_partial_derivatives and check_total_derivatives return, for every relevant (output, input) pair, the user's forward and reverse derivatives, a finite-difference or complex-step reference of the true function, and the norms of their true differences. "
 "A component whose declared derivatives are right shows (near) zero error for every pair, and an error planted in any one Jacobian entry shows up at that pair with its true magnitude, while the model's values are left as they were.",
 ['programs', 'inputs'],
 'every component (any shapes, states, residual definitions, declaration style) and any planted derivative error',
 'Tests assert a few fixed reports; that the report is faithful for every component and every position of an error is universally quantified.',
 ['openmdao/core/problem.py', 'openmdao/core/component.py', 'openmdao/core/system.py'],
 [('partial check', 'problem.py check_partial_derivatives, _assemble_deriv_data'), ('total check', 'problem.py check_total_derivatives'), ('component fd', 'system.py fd_jacobian, complex_step_jacobian'), ('apply_linear from dict Jacobian', 'component.py apply_linear / system.py _apply_linear_jac')],
 ['return value of Problem.check_partial_derivatives / check_total_derivatives'])

prop('C05', 'Automatic execution order respects data dependencies',
 "Unless the user sets an order, the subsystems of every group run in an order in which each runs after all siblings it depends on whenever such an order exists, so a feed-forward model is fully up to date after one pass whatever the order in which subsystems were added. "
 "An order given by set_order is used exactly, an incomplete or invalid one is rejected, and for cyclic groups every dependency not inside a cycle is still respected.",
 ['programs', 'histories'],
 'every dependency graph (acyclic or cyclic), every nesting, every order of add / set_order calls',
 'Tests list a few graphs; topological validity is a statement over all graphs and insertion orders.',
 ['openmdao/core/group.py', 'openmdao/core/problem.py', 'openmdao/util/graph.py', 'openmdao/core/_checks.py'],
 [('auto order', 'group.py list_auto_order, _break_cycles'), ('explicit order', 'group.py set_order'), ('subsystem graph', 'group.py _get_sys_graph'), ('use at setup', 'problem.py setup')],
 ['order of solve_nonlinear calls'])

prop('C06', 'Nonlinear solvers stop only at a converged solution or report failure',
 "When a nonlinear solver (Gauss-Seidel with or without Aitken acceleration, Newton, Brent) returns normally before its iteration limit, the coupled states satisfy the residual equations to its tolerance and agree with an independently computed solution. "
 "It never exceeds its iteration limit, and when the limit is reached or the iterate is invalid it raises AnalysisError exactly when err_on_maxiter is set; this holds for nested solvers and on repeated solves from any starting point.",
 ['programs', 'inputs', 'configurations', 'histories'],
 'every coupled model (contractive or well-conditioned), start point, solver option setting and nesting',
 'Tests run Sellar-like problems from one start point with near-default options.',
 ['openmdao/solvers/nl_gauss_seidel.py', 'openmdao/solvers/newton.py', 'openmdao/solvers/brent.py', 'openmdao/solvers/run_once.py', 'openmdao/core/group.py'],
 [('NLGS loop', 'nl_gauss_seidel.py NLGaussSeidel.solve'), ('Newton loop', 'newton.py Newton.solve'), ('Brent', 'brent.py Brent.solve'), ('residual evaluation', 'group.py apply_nonlinear, component.py apply_nonlinear')],
 ['unknowns/residuals after Problem.run', 'AnalysisError'])

prop('C07', 'Line searches keep bounded states within their bounds',
 "During a Newton solve with a line search, after every solver iteration every state with declared lower or upper bounds (scalar or array) lies within them provided it started inside, and where the bounds are not active the same solution is found as without bounds. "
 "If the solution lies strictly inside the bounds and the problem is monotone, the solver converges to it from any feasible start. "
 "Every point that is tried is the previous iterate plus the step fraction (alpha, cut back by rho until the decrease test with c is met or maxiter is reached) times the Newton step, where only the entries that would cross a bound are cut, to that bound.",
 ['inputs', 'programs'],
 'every system of bounded implicit states, every start point within the bounds, scalar or array bounds, either side',
 'Tests use one two-state problem with a handful of starts.',
 ['openmdao/solvers/backtracking.py', 'openmdao/solvers/newton.py', 'openmdao/core/vec_wrapper.py'],
 [('bound limit', 'vec_wrapper.py distance_along_vector_to_limit'), ('backtracking', 'backtracking.py BackTracking.solve'), ('newton call', 'newton.py')],
 ['states seen by apply_nonlinear / solve_nonlinear'])

prop('C08', 'Setup rejects ill-formed connections and accepts well-formed ones',
 "Setup of a model raises an error for every ill-formed connection - unknown source or target, incompatible types, shapes or src_indices out of range, incompatible units, an input driven by two different sources, conflicting promotions - and does not raise for any well-formed model. "
 "The check_setup report names exactly the inputs that are unconnected and the subsystems that are out of order or in cycles, and inputs promoted to one name without a source but with different units or initial values are flagged. Setup rejects exactly the models whose implicit states or cycles no linear solver around them iterates over. The report goes to the requested stream only and names exactly the recorders, parallel groups, undeclared pass-by-object outputs, unsupported active tolerances and derivative-mode advice that apply.",
 ['programs'],
 'every model and every single ill-formed edit of it',
 'Tests contain one example per error message; that each ill-formed edit at any position in any hierarchy is caught is universally quantified.',
 ['openmdao/core/problem.py', 'openmdao/core/group.py', 'openmdao/core/_checks.py', 'openmdao/core/system.py', 'openmdao/core/component.py'],
 [('connection checks', '_checks.py check_connections'), ('graph/conn setup', 'problem.py _setup_connections, _setup_units, _check_input_diffs'), ('promotes', 'system.py _promoted, group.py _setup_variables'), ('reports', 'problem.py check_setup')],
 ['exceptions of Problem.setup', 'Problem.check_setup return value'])

prop('C09', 'Drivers exchange consistently scaled values, bounds and gradients',
 "With any scaler, adder and indices, a design-variable value set by a driver reaches the model unscaled, reading it back returns what was set, and metadata bounds, objective and constraint values and the gradient presented to the driver are those of the model transformed by the same scaling. "
 "Only the selected entries of a variable are read, written, bounded or differentiated.",
 ['inputs', 'configurations', 'histories'],
 'every scaler/adder (scalar or array, either sign of adder), indices, shape and sequence of set/get',
 'Tests use one or two scalings on scalar or short-array variables.',
 ['openmdao/core/driver.py', 'openmdao/core/problem.py', 'openmdao/core/vec_wrapper.py'],
 [('desvar metadata', 'driver.py add_desvar/add_objective/add_constraint'), ('set/get', 'driver.py set_desvar, get_desvars, get_objectives, get_constraints'), ('gradient', 'driver.py calc_gradient, problem.py calc_gradient dv_scale/cn_scale')],
 ['Driver.get_desvars/get_objectives/get_constraints/calc_gradient', 'Problem values'])

prop('C10', 'The SciPy optimizer wrapper returns a feasible optimum in user units',
 "For a convex problem with bounds and linear or convex constraints, running ScipyOptimizer with a method that supports them ends with design variables within bounds, every constraint (lower, upper, equals, linear, array) satisfied to tolerance, and an objective equal to the true optimum. "
 "The answer does not depend on scaling, on gradients being analytic or finite-differenced, or on derivative mode, and the model is left evaluated at the reported optimum.",
 ['inputs', 'configurations'],
 'every convex QP with box/linear constraints, every scaling and constraint form, every supporting method',
 'Tests solve the paraboloid and Sellar with fixed settings.',
 ['openmdao/drivers/scipy_optimizer.py', 'openmdao/core/driver.py'],
 [('objective/constraint callbacks', 'scipy_optimizer.py _objfunc, _confunc, _gradfunc, _congradfunc'), ('bounds and constraint assembly', 'scipy_optimizer.py run'), ('scaling', 'driver.py')],
 ['Problem values after run'])

prop('C11', 'Recorded cases read back exactly what was in the model',
 "For each iteration recorded by the SQLite, HDF5 and in-memory recorders, the values read back (through the case readers where they exist) equal, bit for bit, the model's values at the moment of recording, with the right name, iteration coordinate, success flag and message, and derivatives where recorded. "
 "Later iterations never alter what was recorded earlier, and cases are listed in the order in which they ran. The CSV and text dump recorders write one row or block per record, with these values, in the documented layout.",
 ['histories', 'inputs', 'programs'],
 'every sequence of runs, every value (including extreme floats, arrays, strings and objects), every model and recorder',
 'Tests read back one or two iterations of a fixed model; aliasing and ordering defects need several iterations and arrays.',
 ['openmdao/recorders/sqlite_recorder.py', 'openmdao/recorders/sqlite_reader.py', 'openmdao/recorders/hdf5_recorder.py', 'openmdao/recorders/hdf5_reader.py', 'openmdao/recorders/inmem_recorder.py', 'openmdao/recorders/base_recorder.py', 'openmdao/recorders/case_reader.py', 'openmdao/recorders/csv_recorder.py', 'openmdao/recorders/dump_recorder.py'],
 [('record', 'recorders/*_recorder.py record_iteration/record_derivatives'), ('read', 'sqlite_reader.py, hdf5_reader.py, case.py'), ('filter', 'base_recorder.py _get_recorded_metadata / filters')],
 ['CaseReader(...).get_case(...)', 'InMemoryRecorder.iters'])

prop('C12', 'Recorders capture exactly the selected variables for every iteration',
 "A recorder attached to a driver or nonlinear solver receives exactly one record per iteration of that object, with pairwise distinct iteration coordinates that spell out the enclosing drivers and solvers and increase in execution order. "
 "Each record contains exactly the parameters, unknowns and residuals selected by its record_* switches and its includes/excludes patterns, whichever object it is attached to and however deep.",
 ['configurations', 'histories', 'programs'],
 'every include/exclude pattern list, record_* setting, attachment point and run history',
 'Tests use a few patterns on flat models.',
 ['openmdao/recorders/base_recorder.py', 'openmdao/recorders/recording_manager.py', 'openmdao/util/record_util.py', 'openmdao/core/driver.py', 'openmdao/solvers/solver_base.py'],
 [('filter', 'base_recorder.py startup/_check_path/_get_filtered'), ('coordinates', 'util/record_util.py create_local_meta/update_local_meta/format_iteration_coordinate'), ('dispatch', 'recording_manager.py RecordingManager')],
 ['records received by BaseRecorder subclasses'])

prop('C13', 'DOE drivers generate the designs they promise',
 "Full-factorial designs run every combination of levels exactly once; Latin hypercube designs (plain and optimised) hit each of the N strata of each dimension exactly once; uniform designs stay within bounds; all stay within the variables' bounds and cover array elements independently. "
 "The same seed gives the same design, and the number of cases is what was asked for.",
 ['inputs', 'configurations'],
 'every number and size of design variables, bounds, levels, sample counts and seeds',
 'Tests fix one or two dimensions and seeds.',
 ['openmdao/drivers/fullfactorial_driver.py', 'openmdao/drivers/latinhypercube_driver.py', 'openmdao/drivers/uniform_driver.py', 'openmdao/drivers/predeterminedruns_driver.py'],
 [('generation', 'fullfactorial_driver.py/latinhypercube_driver.py/uniform_driver.py _build_runlist'), ('optimiser', 'latinhypercube_driver.py _mmlhs, _LHC_Individual.perturb')],
 ['design values seen by the model'])

prop('C14', 'Predetermined-run drivers execute each case faithfully and in isolation',
 "A case or DOE driver runs the model once per case, in order, with exactly that case's inputs, and the recorded or returned responses are those of an independent run of the model at these inputs. "
 "A case that fails with an analysis error is marked as failed without affecting the others, any other exception propagates as itself (in a parallel run it ends the run early instead), and running cases in parallel subprocesses gives the same set of results as running them serially.",
 ['inputs', 'histories', 'fault_sequences'],
 'every list of cases, every failing subset, serial or multi-process execution',
 'Tests run fixed case lists without failures mixed in.',
 ['openmdao/drivers/case_driver.py', 'openmdao/drivers/predeterminedruns_driver.py'],
 [('case loop', 'predeterminedruns_driver.py run, _run_serial, run_case'), ('multiprocess', 'predeterminedruns_driver.py _run_lb_multiproc, worker'), ('responses', 'case_driver.py get_responses / get_all_responses')],
 ['recorder contents', 'CaseDriver.get_responses'])

prop('C15', 'Unit conversion is exact, invertible and transitive',
 "Converting a value between compatible units - any combination of prefixes, products, quotients, powers, and offset temperatures - agrees with the SI definition of the units, converts back to the original value, and composes (A to B to C equals A to C); incompatible units are rejected. "
 "Arithmetic on physical quantities agrees with arithmetic on their base-unit values and dimensions, and invalid operations raise an error.",
 ['inputs'],
 'every unit expression from the library and every value',
 'Tests check a few dozen fixed conversions.',
 ['openmdao/units/units.py', 'openmdao/units/unit_library.ini'],
 [('parser and library', 'units.py _find_unit, import_library, add_unit'), ('conversion', 'units.py PhysicalUnit.conversion_tuple_to / conversion_factor_to, convert_units, get_conversion_tuple'), ('arithmetic', 'units.py PhysicalQuantity, PhysicalUnit operators')],
 ['convert_units', 'PhysicalQuantity API'])

prop('C16', 'ExecComp computes its expressions and their exact derivatives',
 "An ExecComp's outputs equal its expressions evaluated with NumPy semantics on its inputs - for scalar and array variables, indexed assignments, all documented functions, variable names with colons, and several expressions per component - and its Jacobian equals the true derivative of those expressions. "
 "Variable metadata given by keyword (value, units) is applied to the right variable.",
 ['programs', 'inputs'],
 'every expression over the documented grammar and every input point where it is differentiable',
 'Tests evaluate a couple of dozen fixed expressions.',
 ['openmdao/components/exec_comp.py'],
 [('parsing', 'exec_comp.py _parse_for_vars, _compile_exprs'), ('evaluation', 'exec_comp.py solve_nonlinear'), ('derivatives', 'exec_comp.py linearize (complex step)')],
 ['Problem values, calc_gradient'])

prop('C17', 'Library components satisfy their defining equations',
 "The LinearSystem component's state solves its linear system and its derivatives are those of the inverse map; the constraint component returns the signed violation it documents; independent-variable components deliver their values, units and multiple variables unchanged; the unit-conversion component converts. "
 "Their partial and total derivatives match their defining equations in every mode.",
 ['inputs', 'programs'],
 'every size, coefficient and value',
 'Tests use a single 3x3 system and single constraint expressions.',
 ['openmdao/components/linear_system.py', 'openmdao/components/constraint.py', 'openmdao/components/indep_var_comp.py', 'openmdao/components/unit_comp.py'],
 [('LinearSystem', 'linear_system.py solve_nonlinear/apply_nonlinear/apply_linear/solve_linear'), ('ConstraintComp', 'constraint.py'), ('IndepVarComp', 'indep_var_comp.py'), ('UnitComp', 'unit_comp.py')],
 ['Problem values, calc_gradient'])

prop('C18', 'Surrogate models interpolate their data and differentiate consistently',
 "Interpolating surrogates (Kriging, multi-fidelity co-Kriging, nearest-neighbour kinds) reproduce training outputs at training points, response surfaces reproduce any quadratic exactly, and predictions do not depend on the order of training points (nor, where the method is affine-invariant, on output scaling). "
 "Where a surrogate provides a Jacobian it equals the derivative of its own prediction, and prediction errors (sigma) are non-negative and vanish at training points.",
 ['inputs'],
 'every training set in general position, every prediction point, every dimension',
 'Tests check 1-D and 2-D examples at a few points.',
 ['openmdao/surrogate_models/kriging.py', 'openmdao/surrogate_models/multifi_cokriging.py', 'openmdao/surrogate_models/response_surface.py', 'openmdao/surrogate_models/nearest_neighbor.py', 'openmdao/surrogate_models/nn_interpolators'],
 [('train/predict/linearize', 'surrogate_models/*.py')],
 ['train, predict, linearize'])

prop('C19', 'MetaModel routes training data and inputs to the right surrogate columns',
 "A MetaModel trains each output's surrogate on exactly the training data supplied for that output and for all inputs in declared order (scalars and arrays flattened side by side), predicts with the current inputs arranged the same way, retrains when asked, and returns predictions in the output's shape. "
 "The same holds per fidelity level for the multi-fidelity version, and its derivatives place each surrogate Jacobian column at the right input entry.",
 ['programs', 'inputs', 'histories'],
 'every mix of scalar/array inputs and outputs, fidelity count, default or per-output surrogate, retraining sequence',
 'Tests use at most two inputs, mostly scalars, and two fidelities.',
 ['openmdao/components/meta_model.py', 'openmdao/components/multifi_meta_model.py'],
 [('routing', 'meta_model.py _vec_to_array, _train, solve_nonlinear, linearize'), ('multi-fidelity', 'multifi_meta_model.py _train')],
 ['calls received by the surrogate', 'component outputs'])

prop('C20', 'Option dictionaries enforce declarations and return what was set',
 "An option dictionary returns for each declared option the last valid value set (or its default), rejects undeclared names, out-of-range, wrong-typed or unlisted values without changing the stored value, refuses to change locked options, and forwards deprecated names to their replacement. "
 "This holds after any sequence of add, set, get, reset, lock and read operations.",
 ['histories'],
 'every sequence of operations on every set of declared options',
 'Tests exercise single operations.',
 ['openmdao/util/options.py'],
 [('checks', 'options.py _check, __setitem__, __getitem__, get'), ('deprecation/locks', 'options.py _deprecated, lock options, is_set/changed'), ('declaration', 'options.py add_option')],
 ['OptionsDictionary API'])

prop('C21', 'A SubProblem behaves like the model it wraps',
 "A problem wrapped as a component produces, for every input, the same outputs as the wrapped problem run by itself (including a wrapped optimiser or DOE), exposes exactly the requested params and unknowns, and provides the same total derivatives as the inlined model. "
 "Nesting depth and promotion of the wrapped names do not matter.",
 ['programs', 'inputs'],
 'every wrapped model, exposed variable set, nesting depth and input',
 'Tests wrap one or two fixed models.',
 ['openmdao/components/subproblem.py', 'openmdao/core/problem.py'],
 [('wrapping', 'subproblem.py _setup_variables, _setup_communicators, solve_nonlinear, linearize')],
 ['Problem values, calc_gradient'])

prop('C22', 'Text file templating and parsing round-trip',
 "Values written into a template at an anchor, row and field by the input generator appear at exactly that place with all other text preserved, and the parser reads back at the same address exactly the values that were written - scalars, arrays spanning rows, 2-D arrays, exponents, inf and nan. "
 "Anchors count occurrences forwards and backwards as documented, and out-of-range addresses are errors.",
 ['inputs', 'histories'],
 'every template text, address and value, every sequence of anchor/transfer operations',
 'Tests use a few small fixed templates with short decimal values.',
 ['openmdao/util/file_wrap.py'],
 [('generator', 'file_wrap.py InputFileGenerator'), ('parser', 'file_wrap.py FileParser')],
 ['InputFileGenerator.generate output', 'FileParser.transfer_* results'])

prop('C23', 'Namelists round-trip between model and file',
 "A namelist written from variables and read back yields the same groups, names and values - ints, floats, booleans, strings, 1-D and 2-D arrays - and the generated text is a well-formed namelist with each card in its own group. "
 "Adding, finding and loading variables keeps unrelated cards unchanged.",
 ['inputs'],
 'every set of groups, names and values of the supported types',
 'Tests round-trip one fixed deck.',
 ['openmdao/util/namelist_util.py'],
 [('generate', 'namelist_util.py Namelist.generate'), ('parse', 'namelist_util.py parse_file / ToXXX grammar'), ('load', 'namelist_util.py load_model')],
 ['Namelist.generate text, parse_file cards'])

prop('C24', 'Results depend only on current inputs, never on call history',
 "After any sequence of setting inputs, running, linearising, computing totals in any mode, checking derivatives, attaching recorders or calling setup again, the model's outputs and derivatives equal those of a fresh problem given the same inputs, and computing or checking derivatives leaves every value in the model exactly as it was. "
 "Setting a value and reading it back returns it in between, and two problems never influence each other.",
 ['histories'],
 'every interleaving of public operations on a problem',
 'Tests run one operation on a fresh problem.',
 ['openmdao/core/problem.py', 'openmdao/core/system.py', 'openmdao/core/component.py', 'openmdao/core/vec_wrapper.py', 'openmdao/core/group.py'],
 [('value access', 'problem.py __getitem__/__setitem__'), ('fd/cs restore', 'system.py fd_jacobian/complex_step_jacobian'), ('setup', 'problem.py setup'), ('jacobian cache', 'component.py _jacobian_cache')],
 ['Problem.__getitem__, calc_gradient'])

prop('C25', 'External codes run faithfully and failures are reported',
 "An external-code component runs the given command in the directory of the component with its arguments, environment and standard streams, checks that declared input files exist before and output files exist after, and makes the outputs written by the command available; a non-zero return code, death by a signal, a missing command or file or a timeout raises an error (or an analysis error where so configured) and never passes silently. "
 "Timeouts and error handling leave no process behind.",
 ['inputs', 'fault_sequences'],
 'every combination of file sets, return codes, timeouts, output volume and fail modes',
 'Tests cover single faults with fixed settings.',
 ['openmdao/components/external_code.py', 'openmdao/util/shell_proc.py'],
 [('checks', 'external_code.py check_setup, _check_for_files'), ('execution', 'external_code.py solve_nonlinear, _execute_local'), ('process', 'shell_proc.py ShellProc')],
 ['exceptions and files after run'])

prop('C26', 'Vectors: named, flat and sliced views of a system agree',
 "For every system, each vector's flat array is the concatenation of its variables in their listed order, writing through a name (or through a sub-view of a nested group) is visible through every other view of the same data and nowhere else, and flattening, norms, index lookups and iteration agree with NumPy on the individual values. "
 "Shapes are preserved on read, written arrays are stored in row-major order, a single value fills an array, arrays of another size are rejected without effect, and pass-by-object values never enter the flat array.",
 ['programs', 'histories'],
 'every variable layout and nesting, every sequence of reads and writes',
 'Tests build a few two-variable vectors.',
 ['openmdao/core/vec_wrapper.py', 'openmdao/core/vec_wrapper_complex_step.py'],
 [('setup and views', 'vec_wrapper.py VecWrapper.setup, _setup_get_funct, _get_subview'), ('complex-step wrappers', 'vec_wrapper_complex_step.py'), ('index helpers', 'vec_wrapper.py get_indices/merge_idxs/get_local_idxs')],
 ['VecWrapper API'])

prop('C27', 'File references and file utilities move the right files to the right places',
 "A file reference passed between components refers, at the receiving component's absolute directory, to a file with the producer's exact contents (text or binary). "
 "Directory building creates exactly the described tree, file searches return exactly the entries matching the include/exclude patterns, upward searches find the entry of the nearest ancestor, existing files are overwritten only on request, directory contexts return to where they were entered, and nothing else on disk is created or changed.",
 ['inputs', 'programs'],
 'every directory tree, pattern set, file content and component directory layout',
 'Tests use one fixed tree.',
 ['openmdao/core/fileref.py', 'openmdao/util/file_util.py'],
 [('FileRef', 'fileref.py FileRef._assign_to, open, _abspath'), ('file_util', 'file_util.py build_directory, find_files, find_up, DirContext')],
 ['file system contents'])

prop('C28', 'Independent system queries describe the model that runs',
 "Structural queries - listing connections, unconnected inputs, states, parameters, recursive subsystem iteration, promoted/absolute name translation, and the model data exported for visualisation - agree with the model as assembled, for every nesting and promotion. "
 "Every variable reachable by its promoted name is the same variable as the one found by its path through the systems, reading and writing a name concern the same variable, and a name that no variable has is refused.",
 ['programs'],
 'every model hierarchy and promotion pattern',
 'Tests query fixed models.',
 ['openmdao/core/system.py', 'openmdao/core/group.py', 'openmdao/core/problem.py', 'openmdao/devtools/partition_tree_n2.py', 'openmdao/util/dict_util.py'],
 [('queries', 'group.py list_connections, system.py list_params/list_states/list_unit_conv, subsystems/components'), ('n2 data', 'devtools/partition_tree_n2.py _system_tree_dict, get_model_viewer_data'), ('name translation', 'problem.py _sysdata, __getitem__')],
 ['return values of the queries'])

prop('C29', 'The pyOptSparse wrapper poses the declared problem to the optimizer',
 "pyOptSparseDriver hands pyoptsparse exactly the declared optimization problem: every design variable, objective and constraint once, with its size, initial value, bounds and linearity in scaled units; function values and gradients at every point the optimizer asks for are those of the model there, and no derivative that is not zero is left out of the declared sparsity. "
 "Linear constraints are equivalent to the model's, only entries of constraints that are away from all of their bounds may be skipped (and only for an active-set optimizer), failing analyses are reported as failures, every evaluation is recorded, and the model is left at the returned solution.",
 ['inputs', 'programs', 'faults'],
 'every problem formulation (sizes, indices, scaling, bounds, connections), every point and every failure',
 'pyoptsparse is an optional dependency whose tests are skipped without it, and they only look at the final optimum of a few problems.',
 ['openmdao/drivers/pyoptsparse_driver.py', 'openmdao/core/driver.py', 'openmdao/core/problem.py'],
 [('problem definition', 'pyoptsparse_driver.py run, _build_sparse'), ('callbacks', 'pyoptsparse_driver.py _objfunc, _gradfunc')],
 ['calls received by the optimizer, final state'])

prop('C30', 'Profiling counts every call where it was made and changes nothing',
 "While profiling is active every call of a profiled method (setup, run, calc_gradient, nonlinear and linear solves, residuals, Jacobians, transfers, recording) of every problem, system, solver and recording manager is counted exactly once, under the calls it was made from, "
 "however profiling is started and stopped and also when calls end with an exception; the totals, call tree, dump and pages made from the raw files of one or several processes have these counts, with consistent times. Values, derivatives, checks and errors are the same with and without profiling.",
 ['inputs', 'histories', 'faults'],
 'every model, every sequence of runs, derivative requests, failures and starts and stops (also inside a run), one or several raw files',
 'The profiler has no test.',
 ['openmdao/util/profile.py'],
 [('wrapping', 'profile.py setup, wrap_methods, _profile_dec'), ('evaluation', 'profile.py process_profile, prof_totals, prof_view, prof_dump')],
 ['raw files, process_profile, command line output'])

prop('C31', 'Senseless declarations are refused and change nothing; sound ones take effect',
 "Whatever design variables, objectives, constraints and groups of variables are declared on a driver, in any order, whatever variables and metadata are added to a component, and whatever subsystems are added to a group or put in order: a declaration that repeats a name, contradicts itself, is malformed, comes too late or asks for what the driver does not support is refused with an error that says why, and leaves every earlier declaration as it was; "
 "every other one is accepted, and appears, in order of declaration, with exactly the declared values, bounds, scaling, indices and kinds before and after setup. Setup refuses exactly the drivers whose variables do not exist, are computed by the model or are objects where gradients are needed.",
 ['inputs', 'histories'],
 'every sequence of declarations on every driver, component and group',
 'Tests have one example for most messages; that nothing else changes, and that no sound declaration is refused, is not tested.',
 ['openmdao/core/driver.py', 'openmdao/core/component.py', 'openmdao/core/group.py', 'openmdao/core/system.py'],
 [('driver', 'driver.py add_desvar, add_objective, add_constraint, parallel_derivs, _setup'), ('component', 'component.py _add_variable, add_param, add_output, add_state'), ('group', 'group.py add, set_order')],
 ['exceptions', 'driver metadata and values', 'component vectors', 'Group.list_order'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
