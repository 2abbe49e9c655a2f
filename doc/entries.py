"""All property entries; doc/generate.py writes properties.jsonl and MANIFEST.json from them."""

PROPERTIES = []
CLAIMED = {}
NOT_APPLICABLE = {}


def prop(id, title, statement, over, text, why, files, mechanism, technique=None, note=None, na=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}
    if observe:
        a['observe_at'] = observe
    PROPERTIES.append({'id': id, 'title': title, 'statement': statement,
                       'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})
    if na:
        NOT_APPLICABLE[id] = na
    else:
        CLAIMED[id] = (technique, note)


NF = 'abstract interpretation to algebraic normal forms (global value numbering)'
EXACT = ('Decides equality of real-arithmetic normal forms for all inputs in the stated regimes; rounding is outside the claim. '
         'All instantiations dim 1-3, scalar and vectorised, are analysed.')
EU, AE, SW, SC = ('source/%s/hyperbolic_system.h' % d for d in ('euler', 'euler_aeos', 'shallow_water', 'scalar_conservation'))

prop('A01', 'Conversions between conserved and primitive states are mutually inverse',
     'In every equation module and space dimension, converting a conserved state to primitive variables and back returns the same state, '
     'and the conserved state built from primitive (or lower-dimensional initial) data has density, density times velocity and the total energy the data describe. '
     'Transforming the momentum of a state leaves its other components untouched.',
     ['inputs', 'configurations'], 'all states, all parameter values, dimensions 1 to 3, scalar and SIMD number types',
     'Tests convert a handful of states for default parameters; the identity must hold for every state and parameter value.',
     [EU, AE, SW, SC],
     [('to_primitive_state / from_primitive_state / from_initial_state / expand_state / apply_galilei_transform', 'HyperbolicSystemView in each hyperbolic_system.h')],
     NF, EXACT)

prop('A02', 'The numerical flux is consistent with the physical flux',
     'For every equation module, the flux evaluated at a state is the physical flux of its conservation law, and the interface flux that the scheme uses between two rows with equal state and equal bathymetry '
     'is that physical flux contracted with the stencil vector, with the fixed sign and factor two of the scheme.',
     ['inputs', 'configurations'], 'all states, stencil vectors, parameter values, dimensions and number types',
     'Convergence tests would only notice gross flux errors for the solutions they run.',
     [EU, AE, SW, SC],
     [('f, nodal_contribution, flux_contribution, flux_divergence, high_order_flux_divergence', 'HyperbolicSystemView in each hyperbolic_system.h')],
     NF, EXACT)

prop('A03', 'Interface fluxes cancel pairwise',
     'What a degree of freedom loses through the interface flux towards a neighbour, the neighbour gains: for all pairs of states and antisymmetric stencil vectors the two contributions sum to zero. '
     'For the shallow water equations this holds for the mass over arbitrary bathymetry and for all components over flat bathymetry.',
     ['inputs', 'configurations'], 'all pairs of states, precomputed values and stencil vectors, low- and high-order flux',
     'The conservation test runs one problem on one mesh and compares with a tolerance.',
     [EU, AE, SW, SC],
     [('flux_contribution, flux_divergence, high_order_flux_divergence, equilibrated_states', 'HyperbolicSystemView in each hyperbolic_system.h')],
     NF, EXACT + ' Shallow water is decided for wet states.')

prop('A04', 'A lake at rest stays at rest',
     'For the shallow water equations, when the water is at rest and the free surface is level, the flux contributions of a row depend on that row alone (so that they sum to zero), '
     'the equilibrated states that drive the viscosity coincide, and no source acts; this includes dry islands.',
     ['inputs', 'configurations'], 'all bathymetries, depths and stencil vectors with a level free surface, wet and dry neighbours',
     'No stable test runs a lake at rest over arbitrary bathymetry; the balance must hold for every bathymetry.',
     [SW],
     [('equilibrated_states, affine_shift, flux_divergence, high_order_flux_divergence', SW), ('nodal_source', SW)],
     NF, EXACT)

prop('A05', 'Derived thermodynamic quantities and entropies are mutually consistent',
     'Pressure, internal energy, sound speed, specific and mathematical entropies of a state are those of the equation of state in use, gradients of entropies and internal energy are the exact derivatives with respect to the conserved state, '
     'and the values stored by the precomputation step are the quantities the limiter, the indicator and the Riemann solver later interpret them as.',
     ['inputs', 'configurations'], 'all states and parameter values, dimensions and number types',
     'Gradient formulas are tested by finite differences at isolated states, the table entries not at all.',
     [EU, AE, SW, SC],
     [('pressure, specific_entropy, harten_entropy(_derivative), mathematical_entropy(_derivative), speed_of_sound, precomputation_loop', 'HyperbolicSystemView in each hyperbolic_system.h')],
     NF, EXACT)

prop('A06', 'Boundary conditions impose exactly the values they are documented to impose',
     'For every interior state, prescribed state and unit normal, a boundary degree of freedom becomes: the prescribed state (Dirichlet); the state without its normal momentum (slip) or without momentum (no slip); '
     'the state with prescribed discharge (momentum Dirichlet); itself (do nothing, periodic). '
     'The dynamic condition takes the prescribed state at supersonic inflow, the interior state at supersonic outflow, and otherwise replaces exactly the incoming Riemann characteristic, with entropy and tangential velocity from upstream.',
     ['inputs', 'configurations'], 'all interior and prescribed states, normals, boundary kinds, and the flow regimes with the lines between them',
     'Tests use slip and Dirichlet boundaries of a few problems; the dynamic condition with its four regimes is not exercised by a stable test.',
     [EU, AE, SW, SC, 'source/discretization.h'],
     [('apply_boundary_conditions, prescribe_riemann_characteristic', 'HyperbolicSystemView in each hyperbolic_system.h')],
     NF + ', one abstract state per flow regime', EXACT + ' The dynamic condition is decided for Euler and shallow water; the other modules refuse it.')

prop('A07', 'Equations of state are thermodynamically consistent',
     'For each equation of state and every parameter value, the pressure and energy functions are mutual inverses, the squared sound speed is the isentropic derivative of pressure, '
     'temperature and pressure satisfy the Gibbs relation, and the heat capacity is that of the parameters in the parameter file. '
     'Evaluating many states at once gives the same values as evaluating them one by one.',
     ['inputs', 'configurations'], 'all densities, energies, pressures and parameter values',
     'The test prints values at a few states with the default parameters; consistency relations hold for every state and every parameter file.',
     ['source/euler_aeos/' + f for f in ('equation_of_state.h', 'equation_of_state_polytropic_gas.h', 'equation_of_state_noble_abel_stiffened_gas.h',
                                         'equation_of_state_van_der_waals.h', 'equation_of_state_jones_wilkins_lee.h')],
     [('pressure, specific_internal_energy, temperature, speed_of_sound', 'classes in EquationOfStateLibrary'),
      ('the call-back that follows parameter parsing', 'constructors of the equations of state')],
     NF + ' with exact differentiation', 'Equalities of exact expressions on the branch of admissible states; rounding and table-based equations of state are outside the claim.')

prop('A08', 'Scalar fluxes and their wave-speed estimate are exact',
     'The built-in fluxes of scalar conservation laws come with their exact derivatives. '
     'The wave-speed estimate between two states is the maximum of the regularised difference quotient of the flux and its derivatives at both states (or the selected greedy variant), '
     'and optional entropy checks can only raise it, by the entropy quotients at the mean or at a state between both.',
     ['inputs', 'configurations'], 'all pairs of states, stored flux values, directions and estimator options',
     'One stable test prints estimates for a few states and the default options.',
     ['source/scalar_conservation/riemann_solver.template.h', 'source/scalar_conservation/flux_burgers.h', 'source/scalar_conservation/flux_kpp.h'],
     [('compute', 'ScalarConservation::RiemannSolver'), ('value, gradient', 'FluxLibrary')],
     NF, EXACT)

prop('A09', 'The wave-speed estimate takes the extreme speeds at the upper pressure bound',
     'For every pair of states, the estimate of the maximal wave speed that fixes viscosity and time step is the larger of the extreme speeds of the left and right wave, '
     'evaluated at the documented upper bound of the pressure (or depth) between the states for the sign of the wave-curve function at the larger pressure. '
     'A non-zero reference pressure of the equation of state enters the estimate, the bounds and the wave curves consistently.',
     ['inputs', 'configurations'], 'all pairs of states and directions, both orders of the pressures, all orders of the candidate bounds, vacuum, parameters of the equation of state',
     'The stable tests print estimates for a few pairs of states with the default parameters.',
     ['source/euler/riemann_solver.template.h', 'source/euler_aeos/riemann_solver.template.h', 'source/shallow_water/riemann_solver.template.h'],
     [('compute, phi_of_p_max, p_star_two_rarefaction, p_star_failsafe, lambda1_minus, lambda3_plus', 'RiemannSolver in each riemann_solver.template.h')],
     NF + ', one abstract case per regime', EXACT + ' Euler without Newton iterations (see A12). That the documented bound is an upper bound of the exact intermediate pressure is mathematics of the literature and not decided.')

prop('A10', 'The limiter returns the largest coefficient that keeps the bounds',
     'For every state that obeys its bounds and every increment, the coefficient the limiter returns is the largest one (up to the steps of the root search) for which density or depth, '
     'specific entropy, velocity and energy bounds hold along the increment, is within the given interval, and a state that violates its bounds is reported. '
     'Bounds are collected as extrema over exactly the bar states of a row, relaxing them or combining them with those of a neighbour only ever widens them.',
     ['inputs', 'configurations'], 'all states, increments, bounds (active, inactive, violated, dry), limiter parameters and equations',
     'Tests compare a few limiter values and final states; a wrong slope or sign only slows the root search or clips for special states.',
     ['source/euler/limiter.template.h', 'source/euler_aeos/limiter.template.h', 'source/shallow_water/limiter.template.h', 'source/scalar_conservation/limiter.template.h',
      'source/euler/limiter.h', 'source/euler_aeos/limiter.h', 'source/shallow_water/limiter.h', 'source/scalar_conservation/limiter.h'],
     [('limit, reset, accumulate, bounds, combine_bounds, fully_relax_bounds', 'Limiter of each equation')],
     NF + ', one abstract case per regime of the bounds', EXACT + ' The bounds the relaxation factors and the tolerance give are taken symbolically; machine limits are zero. The root search is A12.')

prop('A11', 'The smoothness indicator is the normalised entropy commutator',
     'For every row, the indicator that selects the high-order viscosity is the documented entropy commutator of the stencil divided by its normalisation, scaled by the configured factor and capped at one. '
     'It vanishes on a stencil that carries one and the same state and does not depend on the row evaluated before.',
     ['inputs', 'configurations'], 'all stencils of states, coefficients and precomputed entropies, all equations of state and fluxes',
     'Tests observe final states, in which a wrong commutator only changes the amount of dissipation.',
     ['source/euler/indicator.h', 'source/euler_aeos/indicator.h', 'source/shallow_water/indicator.h', 'source/scalar_conservation/indicator.h'],
     [('reset, accumulate, alpha', 'Indicator of each equation')],
     NF, EXACT + ' Entropies and surrogate pressures are those decided by A05; a stencil of three rows stands for any.')

prop('A12', 'The bracketing root search never leaves or inverts its bracket',
     'Every step of the root search moves both ends of the bracket to roots of the parabolas that interpolate the function, for a monotone function of either sign, clipped to the old bracket and ordered, so that it never leaves, widens or inverts the bracket. '
     'With Newton iterations enabled, the wave-speed estimate is the one at the upper end of the last bracket, the iteration stops once the gap of the speeds over the bracket is below the tolerance, and it uses the wave curves of the exact Riemann problem and their true slopes.',
     ['inputs', 'configurations'], 'all brackets, function values and slopes (including vanishing ones), signs and numbers of iterations',
     'Tests take the default number of iterations for a handful of brackets only.',
     ['source/newton.h', 'source/euler/riemann_solver.template.h', 'source/euler_aeos/riemann_solver.template.h'],
     [('quadratic_newton_step', 'source/newton.h'), ('compute, phi, dphi, f, df', 'RiemannSolver in euler')],
     NF, EXACT)

prop('A13', 'Bottom friction follows the regularised Manning law',
     'The shallow water source equals minus 2 g n^2 |v| m divided by (h^(4/3) + max(h^(4/3), 2 tau g n^2 |v|)) in the momentum and zero in the mass, so that it never reverses the flow and vanishes for a state at rest. '
     'The law applied to a row and to its neighbour is the same.',
     ['inputs', 'configurations'], 'all states, time-step sizes and friction coefficients',
     'No stable test of friction for arbitrary states and step sizes.',
     [SW], [('manning_friction, nodal_source', SW)], NF, EXACT)

HM = 'source/hyperbolic_module.template.h'
STEP = ('abstract interpretation of the instantiated time step over an arbitrary row, neighbour and thread (array summaries, versioned tables) '
        'to algebraic normal forms')
STEPNOTE = ('Decides the real-arithmetic normal form of every table entry the step writes, for arbitrary rows and neighbours, for all equation modules, dimensions 1-3, '
            'continuous and discontinuous ansatz, with and without limiter passes, multi-stage weights (quick tier: a subset of the configurations). Rounding is outside the claim.')

prop('B01', 'Every exchange between two rows of the update cancels',
     'In every explicit step, low-order and limited, what the update adds to the conserved quantity of a row through a neighbour it takes from the neighbour: '
     'the low-order contribution, the antidiffusive contribution and the limited contribution of a pair of rows are antisymmetric under exchanging the two, so that only sources and boundaries change the total mass.',
     ['inputs', 'configurations'], 'all rows and neighbours, states, meshes, limiter values, stage weights, time-step sizes, ansatz spaces and equations',
     'Tests sum the mass for one problem on one mesh and compare with a tolerance; an asymmetric pair can cancel there or fall below the tolerance.',
     [HM, EU, AE, SW, SC], [('step', 'HyperbolicModule')], STEP, STEPNOTE + ' Wet states for shallow water; antisymmetry of c_ij and symmetry of the mass matrix are assumed (see D04).')

prop('B02', 'Viscosity and time-step size follow the wave-speed estimates',
     'Each entry of the graph viscosity is the norm of c_ij times the wave-speed estimate in its direction, maximised with the opposite direction on boundary couplings, symmetric, and zero in the row sum through the diagonal. '
     'The time-step bound is the minimum over all unconstrained rows, all threads and all ranks of the CFL number times m_i over twice the diagonal viscosity, no larger than the given maximum; the step uses and returns that very value, and reports an error if it is not a positive finite number.',
     ['inputs', 'schedules', 'configurations'], 'all rows, states, partitions of the rows over threads and ranks, CFL numbers and ansatz spaces',
     'Tests observe the final states of smooth runs on few ranks, which hide a missing pair or row until the scheme becomes unstable.',
     [HM], [('step: steps 1 to 3', 'HyperbolicModule')], STEP, STEPNOTE)

prop('B03', 'Every row is updated in every stage, whether vectorised or scalar',
     'In each stage of the explicit step and of the preparation of a state, the loops over rows cover every locally owned row exactly once, '
     'and the vectorised part of the rows computes the same values under the same conditions from the same entries as the scalar part. '
     'The low-order step and the limiter passes act on exactly the same, unconstrained, rows.',
     ['inputs', 'configurations'], 'all partitions of the rows into internal and other rows, all SIMD widths, states and meshes',
     'Which rows are vectorised depends on mesh, ordering and hardware; the sandboxed tests run one width only, where an uncovered or differently treated row may not exist.',
     [HM], [('step, the loops over locally internal and locally owned rows', 'HyperbolicModule')], STEP, STEPNOTE)

prop('B04', 'The explicit update is the convex-limited graph-viscosity update',
     'The low-order state is the old state plus tau/m_i times the sum over all neighbours of interface flux and graph viscosity (and the nodal source); '
     'the antidiffusive flux is the documented high-order minus low-order difference including mass-matrix correction and the stage-weighted high-order fluxes; '
     'each limiter pass adds lambda l_ij P_ij with the minimum of the two factors of a pair, and the last pass discards what is left.',
     ['inputs', 'configurations'], 'all states, meshes, indicator and limiter values, numbers of limiter passes, stage weights, ansatz spaces and equations',
     'Tests compare the final state of a few smooth runs; sign, weight or index errors in rarely active terms (stage weights, last pass, boundary couplings, sources) remain unnoticed.',
     [HM], [('step: steps 4 to 7', 'HyperbolicModule')], STEP, STEPNOTE + ' Low-order and high-order fluxes are symmetric functions (A02, A03).')

prop('B05', 'Indicator and limiter bounds see the whole stencil',
     'The smoothness indicator and the local bounds of a row are built from the data of the row itself and of every neighbour exactly once, each with the neighbour\'s own state, flux and stencil vector, '
     'and are relaxed with the measure of that row. With a discontinuous ansatz the bounds of a row are extended by those its neighbours had before any of them was extended.',
     ['inputs', 'schedules', 'configurations'], 'all rows, states, stencils, traversal orders of rows and threads, ansatz spaces, limiter passes',
     'The limiter tests drive the limiter class with fixed data; no stable test observes which neighbours enter, and none uses a discontinuous ansatz.',
     [HM, 'source/euler/indicator.h', 'source/euler/limiter.h'], [('step: the use of Indicator and Limiter', 'HyperbolicModule')],
     'typestate analysis of the indicator and limiter objects along the abstract time step', STEPNOTE)

prop('B06', 'Each time-stepping scheme has the order and stages its name promises',
     'The coefficients with which a scheme combines its stages form a Runge-Kutta tableau that satisfies the order conditions of the order in its name, evaluates every stage at the time its coefficients imply, '
     'and limits the explicit step so that the whole step never passes the final time. '
     'Splitting schemes put one Crank-Nicolson step between two half steps; all vectors a scheme uses have been allocated.',
     ['configurations', 'inputs'], 'all schemes, right-hand sides and step sizes',
     'The stable tests run three of the schemes on smooth problems; the others, and wrong stage times, are not observed.',
     ['source/time_integrator.template.h', 'source/time_integrator.h'], [('step_*, step, prepare', 'TimeIntegrator')],
     'abstract interpretation over formal combinations of stage fluxes; order conditions in exact arithmetic',
     'All schemes in the enumeration; quick tier three combinations of equation and dimension, thorough all. Stability of the schemes is not decided. '
     'Two-stage and three-stage implicit-explicit schemes are only checked up to what the parabolic module accepts.')

prop('B07', 'A rejected step is repeated from the unchanged old state',
     'When any stage of a step reports a violated invariant domain under bang-bang control, the old state is intact, every stage is repeated once with the minimal CFL number and warnings instead of rejections, '
     'and the repeated step computes the formula of an unrejected one. '
     'A step is rejected exactly if the limiter failed for any entry of any row on any rank, and all ranks take the same decision.',
     ['histories', 'crash_points', 'schedules'], 'all schemes, all stages at which a rejection can occur, all rows, passes and ranks',
     'None of the stable tests triggers a restart in a late stage of a multi-stage scheme.',
     ['source/time_integrator.template.h', HM], [('step', 'TimeIntegrator'), ('step: restart_needed and invariant domain violation handling', 'HyperbolicModule')],
     'abstract interpretation with an injected rejection in every stage; guard analysis of the reduction',
     'All schemes and rejected stages. ' + STEPNOTE)

prop('B08', 'Preparing a state imposes the boundary data and refreshes all derived data',
     'Before a state is advanced, every boundary degree of freedom that is not exempt receives exactly its boundary condition, evaluated at its own old state, normal, position and the requested time; '
     'the result is exchanged, and all derived values of all unconstrained rows are then recomputed in order, each cycle being exchanged before it is used. '
     'The scalar, the vectorised and the batched interface of an equation of state store the same values for the same row.',
     ['inputs', 'configurations', 'schedules'], 'all states, boundary maps, times, rows, partitions, and equations of state',
     'Stable tests use built-in equations of state with the scalar interface and boundaries whose data do not depend on time.',
     [HM, AE], [('prepare_state_vector', 'HyperbolicModule'), ('precomputation_loop', 'HyperbolicSystemView of every equation')],
     'abstract execution for a symbolic boundary entry and a symbolic row, compared as normal forms; must-order of writes and exchanges',
     'All equations, dimensions 1-3, both interfaces, SIMD and scalar range. The formulas themselves are decided in A05 and A06.')

prop('C01', 'No row reads stale data of another process',
     'Whenever a stage of the update reads an entry of a neighbouring row that may live on another process, every change to that table has been exchanged before; '
     'exchanges that overlap in time use different message tags, are finished before their data are used, and are started only after all data to be sent have been written.',
     ['schedules', 'configurations'], 'all partitions over processes, all rows, message orders and numbers of limiter passes, synchronous and asynchronous exchange',
     'A missing or early exchange changes values only at process boundaries by an amount comparable to the truncation error; few stable tests run on more than one rank.',
     [HM, 'source/multicomponent_vector.h', 'source/sparse_matrix_simd.template.h'], [('step, prepare_state_vector: update_ghost_values / update_ghost_rows and SynchronizationDispatch', 'HyperbolicModule')],
     'forward must-analysis (fresh / stale tables) over the phases of the abstract time step', STEPNOTE + ' Tables assembled once are assumed to have valid ghosts.')

prop('C03', 'Threads never race on shared data',
     'In every parallel region, an iteration writes only entries of its own row, and no iteration reads an entry that another iteration of the same region changes. '
     'Everything else written there, in the region or in any function it calls, is private to the thread, atomic, or executed by a single thread.',
     ['schedules', 'inputs'], 'all thread counts, schedules of iterations, rows, parameter values and equations',
     'Stable tests compare results of runs with few threads on small meshes; a race changes the outcome only for rare interleavings.',
     [HM, 'source/openmp.h', 'source/sparse_matrix_simd.template.h', 'source/postprocessor.template.h', 'source/navier_stokes/parabolic_solver.template.h',
      'source/navier_stokes/parabolic_solver_gmg_operators.h', 'source/scalar_conservation/riemann_solver.template.h'],
     [('RYUJIN_PARALLEL_REGION_BEGIN, RYUJIN_OMP_FOR', 'source/openmp.h')],
     'effect analysis of all OpenMP regions through the call graph, and read-write conflict analysis of the row loops',
     'All parallel regions of the analysed translation units including called kernels, limiters, Riemann solvers, fluxes and equations of state (virtual calls resolved to all overriders). '
     'Const member functions of deal.II and the standard library are assumed to be thread-safe.')

prop('C02', 'All processes make the same collective calls',
     'Whether a process reaches a reduction, broadcast, ghost exchange, collective file or mesh operation, and how often, never depends on a value that may differ between processes: '
     'process number, owned part of mesh or vectors, clocks, data read on one process, or anything decided under a condition on such a value. '
     'The same holds for the decision to reject a step.',
     ['configurations', 'inputs', 'schedules'], 'all numbers of processes, partitions (empty ones included), parameter values and timings',
     'A divergent decision dead-locks only for particular partitions or timings; most stable tests run on one process.',
     ['source/time_loop.template.h', HM, 'source/quantities.template.h', 'source/mesh_adaptor.template.h', 'source/offline_data.template.h', 'source/vtu_output.template.h'],
     [('run, print_*, read_checkpoint', 'TimeLoop'), ('step', 'HyperbolicModule')],
     'interprocedural data-flow (taint) analysis of rank-local values with control dependence',
     'Quick tier the Euler equations and everything independent of the equation, thorough all equations and the parabolic solver. Which deal.II calls are collective is a table in the analysis; '
     'the order of messages of different kinds on one communicator is not decided.')

MEMNOTE = ('Integer normal forms of addresses, sizes and list entries; every loop is decided for an arbitrary iteration by the initial value and the step of what it carries. ')
prop('D01', 'Sparse matrices store, transpose and exchange the right entry',
     'An entry of a row is read and written at one address by scalar and vectorised access, distinct entries have distinct addresses, and the transposed access reads the entry with row and column exchanged. '
     'The exchange over processes sends, rank by rank, exactly the entries the receiving process stores as its ghost rows, in the order and layout stored there, and completes. '
     'Initialising a pattern or matrix again leaves nothing of the former one, and reading in a matrix stores the value of every row and column of the pattern.',
     ['inputs', 'configurations', 'histories'], 'all sparsity patterns, partitions, rows, positions, components, one and several lanes, repeated initialisation',
     'The build under test has one lane and most tests run on one process: vectorised rows, component strides and ghost rows are hardly ever exercised.',
     ['source/sparse_matrix_simd.h', 'source/sparse_matrix_simd.template.h'],
     [('get_tensor, get_transposed_tensor, write_entry, update_ghost_rows_start', 'SparseMatrixSIMD'), ('reinit, columns, row_length', 'SparsityPatternSIMD')],
     'abstract interpretation of index arithmetic with loop induction (initial value and step) and case distinction on the row ranges',
     MEMNOTE + 'Instantiated for 1 to 3 components and for 1 and 4 lanes (also on machines whose library has one). Assumes of deal.II: a static pattern stores the diagonal first and the rest by column, '
     'the partitioner lists its targets by rank, the pattern is symmetric, rows of one batch have equal length.')

prop('D02', 'Vector entries are read and written where they are stored',
     'Component d of degree of freedom i of a vector with n components is read, written and added to at one place by scalar, vectorised and indirect access, every component and lane exactly once. '
     'Extracting or inserting a component moves the values of all locally owned degrees of freedom, an extracted component has up to date ghost values, and the partition of the vector holds all components of the owned and ghost entries of the scalar partition. '
     'Taking a lane out of a tensor, or putting it back, touches that lane and no other.',
     ['inputs', 'configurations'], 'all numbers of components, indices, index lists, lanes and partitions',
     'The build under test has one lane and most tests one process: batches, lanes and ghost intervals are hardly ever exercised.',
     ['source/multicomponent_vector.h', 'source/multicomponent_vector.cc', 'source/simd.h', 'source/state_vector.h'],
     [('get_tensor, write_tensor, add_tensor, extract_component, insert_component', 'MultiComponentVector'), ('get_entry, write_entry, serialize_tensor, assign_serial_tensor', 'source/simd.h'), ('create_vector_partitioner', 'source/multicomponent_vector.cc')],
     'abstract interpretation of index arithmetic with loop induction',
     MEMNOTE + 'Instantiated for 1, 2, 3 and 5 components and for 1 and 4 lanes. The transposed loads and stores, partitioners and index sets of deal.II are taken as documented.')
prop('D03', 'Renumbering is a permutation, and the ranges it returns mean what they say',
     'Every renumbering gives each locally owned degree of freedom one new number, puts the groups with exported rows, with consistent strides or with equal row length first, and returns how many it put there; the rows handed to the matrices as vectorised come in whole groups of equal row length. '
     'Constraints and sparsity pattern in use belong to the current numbering, the partition holds every column of the pattern, and every vectorised row another process needs lies before the end of the export range, also where constraints were eliminated.',
     ['inputs', 'configurations'], 'all meshes, constraints, numbers of processes and group sizes',
     'The build under test has groups of one row, for which nearly all of this is trivial, and few tests have constraints on several processes.',
     ['source/local_index_handling.h', 'source/offline_data.template.h'],
     [('export_indices_first, inconsistent_strides_last, internal_range', 'DoFRenumbering'), ('setup', 'OfflineData')],
     'abstract interpretation of index arithmetic with loop induction, freshness analysis',
     MEMNOTE + 'setup() is analysed for 1 lane in 1, 2 and 3 dimensions and for 4 lanes. Index sets, partitioners, renumber_dofs and the constraints of deal.II are taken as documented; that a pattern without constraints keeps its row lengths under renumbering is taken from the symmetry of the pattern.')

prop('D04', 'The assembled matrices are the finite element integrals they stand for',
     'Mass matrix, its inverse and the c_ij matrix hold, for the finite element chosen, the integrals of phi_i phi_j and phi_i grad phi_j over all locally owned cells, for discontinuous elements corrected by half of the jump on every face with a neighbour (periodic ones included), every contribution once and at its degrees of freedom. '
     'The lumped mass matrix is the sum of the rows of the mass matrix, its inverse the inverse, the incidence matrix couples coinciding degrees of freedom of neighbours with the weight of the ansatz, and everything is completed over the processes before it is used.',
     ['inputs', 'configurations'], 'all meshes, finite elements, constraints and numbers of processes',
     'No test uses a discontinuous element, and the others compare final results on a few meshes.',
     ['source/offline_data.template.h', 'source/scratch_data.h', 'source/discretization.h', 'source/discretization.template.h'],
     [('assemble', 'OfflineData'), ('have_discontinuous_ansatz, prepare', 'Discretization')],
     'abstract interpretation of the assembly loops, comparison of integrands in normal form',
     MEMNOTE + 'Decided for 1, 2 and 3 dimensions and the variant with Trilinos. FEValues, WorkStream, distribute_local_to_global and the matrices of deal.II are taken as documented; the multigrid levels of the parabolic solver are not looked at.')

prop('D05', 'The boundary map and the coupled boundary pairs are complete and exact',
     'Every owned, not eliminated degree of freedom with support on a boundary face that is not periodic has, per type of boundary and direction, an entry with the unit vector and the length of the integral of phi n, the integral of phi, the type and its position, put together from the faces of all cells known to the process; contributions are added up where the type agrees and the normals enclose an angle below 60 degrees, and where two slip planes meet in 2D the entry becomes no slip. '
     'The coupling pairs are exactly the pairs of such a degree of freedom and another boundary degree of freedom of its row, with the position of the entry.',
     ['inputs', 'configurations'], 'all meshes, boundary types, constraints and numbers of processes',
     'Tests compare results on a handful of geometries; an entry lost at the border between processes or at an edge changes little there.',
     ['source/offline_data.template.h'], [('construct_boundary_map, collect_coupling_boundary_pairs', 'OfflineData')],
     'abstract interpretation of the collecting loops, comparison of conditions and values in normal form',
     MEMNOTE + 'Decided for the active cells, 1 lane in 1, 2 and 3 dimensions and 4 lanes in 2. In 3D a contribution may fit several entries and is then added to each of them; whether that grouping is geometrically sensible is not decided.')

TRACENOTE = ('Every path through the functions is executed abstractly; calls into other components and libraries become events with symbolic arguments and the condition under which they happen. '
             'What deal.II, boost, MPI and the file system do in these calls is taken from their documentation. ')
prop('E01', 'Checkpoint, restart and mesh adaptation carry over the whole state',
     'A checkpoint written at a tick holds every component of the solution at that time, the time and the output cycle, and a resumed run gets all of them back: each component from the position where it was stored, time and cycle (or zero, if asked for) with the same value on all processes, on the stored mesh without further refinement, with ghost values up to date. '
     'An existing checkpoint is moved aside, file by file, before a new one is written, and no other state is ever written under its name. '
     'Mesh adaptation likewise transfers every component of the prepared state to its own place on the new partition, after all modules were prepared for the new mesh.',
     ['histories', 'configurations', 'crash_points'], 'all states, times, cycles, numbers of processes and combinations of run-time flags',
     'Restart and adaptation need runs that are interrupted, changed and repeated; a component stored under a wrong position is only seen when something reads it back.',
     ['source/time_loop.template.h', 'source/time_loop.h'], [('write_checkpoint, read_checkpoint, adapt_mesh_and_transfer_state_vector, output, run', 'TimeLoop')],
     'abstract interpretation to a trace of guarded events; order, aliasing and value comparison between writer and reader',
     TRACENOTE + 'Decided in 2 and 3 dimensions (1D meshes refuse checkpoints). Whether the interpolation on the new mesh is accurate, and whether the files of a checkpoint that was interrupted while being written are usable, is not decided.')

prop('E02', 'The time loop advances, writes and stops as configured',
     'Every cycle advances the time by the step size the integrator returns for the current state, time and (if enforced) final time, and the loop ends exactly when the final time is reached, up to roundoff if it is enforced. At the first time not before each multiple of the granularity, the final time included, every kind of output that is enabled and due at that tick is made once, for the prepared solution at that time, under consecutive cycle numbers; analytic solution, quantities and adaptation likewise. '
     'The errors reported are the sums over the selected components of the (normalised) norms of the difference between the solution and the analytic state of the same time.',
     ['configurations', 'histories'], 'all combinations of run-time flags, multipliers, granularities and step sizes',
     'Tests run few cycles with one combination of outputs; which multiplier governs which output, or what happens at the final tick, is never distinguished.',
     ['source/time_loop.template.h'], [('run, output, compute_error', 'TimeLoop')],
     'abstract interpretation of one arbitrary cycle to guarded events; comparison of guards and values in normal form',
     TRACENOTE + 'The loop is decided for an arbitrary cycle by initial values and step of the variables it carries. Terminal and log output other than the errors is not decided.')

prop('E03', 'Quantities of interest are the averages and time series they are named for',
     'A manifold collects, for every owned degree of freedom on it that is not eliminated, its index, mass and (on the boundary) normal and boundary mass once, and its spatial average is the sum of mass times value over the sum of the masses of all processes, for the first and second moments of the selected components, computed from the current state. '
     'Time averages are the integral by the trapezoidal rule over the recorded interval divided by its length, made of consecutive records and restarted exactly when they are cleared. '
     'Every output selected in the options, and no other, is recorded and written to its own file, points gathered from all processes with the values belonging to them, time series in order and without gaps or repetitions over several writeouts.',
     ['inputs', 'configurations', 'histories'], 'all manifolds, options, states, sequences of record and writeout calls and numbers of processes',
     'No test evaluates a quantity of interest over several records on several processes; a wrong weight gives plausible numbers.',
     ['source/quantities.template.h', 'source/quantities.h'], [('prepare, accumulate, write_out, internal_accumulate, internal_write_out, internal_write_out_time_series, clear_statistics', 'Quantities')],
     'abstract interpretation to guarded events; comparison of accumulated values and file contents in normal form',
     TRACENOTE + 'Decided for all equations with a system of components in 1, 2 and 3 dimensions. What a level set expression selects, and number formatting, is not decided.')

prop('E04', 'Every output field holds the quantity it is named for',
     'A selected component, primitive, precomputed or initial quantity or alpha is written under its own name with its own values for every degree of freedom of the state passed in, whatever the selection and its order, with eliminated degrees of freedom interpolated and ghost values up to date. '
     'Schlieren and vorticity fields are the length of the discrete gradient or the curl of their component over the mass, scaled to the extrema over the not eliminated degrees of freedom of all processes, and depend on nothing but the state (and the stored bounds, if asked for). '
     'Full and level set output are written exactly when asked for, under their own name, with the time and cycle given.',
     ['inputs', 'configurations', 'histories'], 'all states, meshes and numbers of processes; every name alone and in pairs, and full lists in several orders',
     'No test looks into a vtu file.',
     ['source/selected_components_extractor.h', 'source/vtu_output.template.h', 'source/postprocessor.template.h', 'source/multicomponent_vector.h'],
     [('extract', 'SelectedComponentsExtractor'), ('schedule_output', 'VTUOutput'), ('prepare, compute', 'Postprocessor'), ('extract_component, insert_component', 'MultiComponentVector')],
     'abstract interpretation to guarded events; comparison of the values written with the quantity named, in normal form',
     TRACENOTE + 'Decided for all equations in 1, 2 and 3 dimensions. Names are enumerated (pairs of names: a seventh in the quick run), values are symbolic. Which cells a level set selects is not decided, and that primitive states are right is decided by A05.')

prop('E05', 'Initial and analytic data are those configured, moved rigidly, per component',
     'The configured initial state is evaluated at the point moved by a rigid motion that takes the configured position to the origin and the configured direction to the x-axis, for every direction in every dimension, at the time asked for; its momentum is turned back by the inverse rotation and nothing else is changed. '
     'A perturbation is relative to each component and applied at the initial time alone. '
     'Interpolated vectors hold component d of the data in their component d, live on the partition of the offline data and have up to date ghost values; the same holds for the initial precomputed data.',
     ['inputs', 'configurations'], 'all directions (in general position and degenerate, of all signs), positions, points, times and lists of states',
     'Tests use one direction in 2D and the x-axis in 3D; a wrong rotation gives a plausible state.',
     ['source/initial_values.template.h', 'source/initial_values.h', 'source/convenience_macros.h'],
     [('affine_transform, affine_transform_vector', ''), ('parse_parameters_callback, interpolate_hyperbolic_vector, interpolate_initial_precomputed_vector', 'InitialValues'), ('apply_galilei_transform', 'HyperbolicSystemView'), ('value', 'ToFunction')],
     'abstract interpretation to normal forms; identities of rotations decided modulo the squares of the radicals (Groebner basis)',
     TRACENOTE + 'Decided for all equations in 1, 2 and 3 dimensions. The rotations are decided symbolically for directions longer than the threshold of the code. The analytic states themselves are data.')

prop('F01', 'The viscous substep solves the discrete equations and keeps total energy',
     'For every state, step size, boundary and choice of solver, the implicit substep of the Navier-Stokes equations solves (m rho + tau B) V_new = m M and (m rho + tau kappa L) e_new = m rho (e + |V - V_new|^2/2) + tau m K, '
     'where B is the stress 2 mu eps + (lambda - 2/3 mu) div v I against test functions, K the same stress contracted with the gradient of the new velocity, L the Laplacian, and |V - V_new|^2/2 what keeps total energy. '
     'Velocity loses its normal part on slip, vanishes on no-slip and is that of the boundary state at the new time on Dirichlet boundaries; internal energy is prescribed on Dirichlet boundaries alone. '
     'Matrix-free operators and right hand sides agree about that; eliminated degrees of freedom are cleared in every vector; every vector is filled, fixed, cleared and used in this order. '
     'Multigrid levels use the density, mass and boundary of the level with the same factors, and a run without or after failed multigrid solves the same system. '
     'A new global minimum of the internal energy requests a restart, and density is never changed.',
     ['inputs', 'configurations'], 'all states, step sizes, viscosities, boundary maps, cell integrals and solver configurations, in 1, 2 and 3 dimensions',
     'Tests run one shock in one direction, with Dirichlet boundaries and one viscosity; slip, no-slip, periodic and the second viscosity are never run.',
     ['source/navier_stokes/parabolic_solver.template.h', 'source/navier_stokes/parabolic_solver_gmg_operators.h'],
     [('backward_euler_step', 'ParabolicSolver'), ('vmult, initialize, compute_diagonal, apply_local_operator', 'VelocityMatrix'), ('vmult, initialize, compute_diagonal, apply_local_operator', 'EnergyMatrix'), ('vmult, reinit', 'DiagonalMatrix')],
     'abstract interpretation to normal forms of the entries of all vectors and of the integrands of the cell loops, with an order (typestate) of the events of every vector',
     TRACENOTE + 'Decided for the generic row, boundary entry, cell and quadrature point, in 1, 2 and 3 dimensions, for five configurations of the solvers. Rows are those of the width of the vectors in this build. '
     'Convergence of the iterations is not decided (N04).')

prop('F02', 'Every parameter reaches the variable it names, with a default, and counts',
     'Every run-time parameter is stored in a variable of its own, that which its name says; two parameters of an object never share a name or a variable, nor are they exchanged. '
     'Parameters of arithmetic and enumeration type have a value before they are declared. The value that is parsed is used: the variable is read after parsing, in member functions or callbacks, not only while the object is constructed; two accessors never return the same parameter. '
     'The strings accepted for an enumeration cover every enumerator once, and select the one they name. '
     'Initial states, fluxes, equations of state and geometries that can be selected have different names, and each is on its list once.',
     ['configurations'], 'all parameter files, for all six equations and all instantiations of the classes',
     'A test sets a fraction of the 286 parameters; one that is ignored, exchanged or read too early changes a run only if its value is not the default.',
     ['source/navier_stokes/parabolic_solver.template.h', 'source/time_loop.template.h', 'source/time_integrator.h', 'source/discretization.h', 'source/geometry_library.h', 'source/euler/limiter.h'],
     [('constructor, parse callbacks', 'every class that calls add_parameter'), ('conversion_table', 'DECLARE_ENUM'), ('populate_initial_state_list', 'InitialStateLibrary'), ('populate_flux_list', 'FluxLibrary'), ('populate_equation_of_state_list', 'EquationOfStateLibrary')],
     'query over the resolved syntax tree of all translation units: registrations, initialisations before them, reads outside the constructor, accessors, conversion tables, lists',
     'Names and variables are compared by the words in them: reported is an assignment that would agree better if two parameters of the class (or two enumerators) were exchanged, and a variable registered twice. '
     'Parameters of the GeoTIFF initial state are read only in a build with GDAL. Known findings: two parameters that have no effect.')

prop('N01', 'Every update keeps the state in the invariant domain',
     'For every admissible state and every time step within the CFL bound, density or depth, internal energy and entropy bounds hold after each explicit stage, in exact and in floating-point arithmetic.',
     ['inputs', 'histories'], 'all admissible states and step sizes',
     'Tests sample a few flows.', ['source/hyperbolic_module.template.h'], [('step', 'HyperbolicModule')],
     na='The inequality bounds quantities of the run (positivity of sums of states weighted with viscosities, with rounding) that no normal form or interval argument from the source reaches. What it is built from is decided: update formula (B04), viscosity and step size (B02), wave-speed formula (A09), limiter (A10), rejection (B07).')
prop('N02', 'The wave-speed estimate bounds the exact maximal wave speed',
     'For every pair of admissible states the estimate is not below the maximal wave speed of the exact Riemann problem.',
     ['inputs'], 'all pairs of admissible states and equations of state',
     'Tests compare a few pairs with tabulated values.', ['source/euler/riemann_solver.template.h', 'source/shallow_water/riemann_solver.template.h'], [('compute', 'RiemannSolver')],
     na='The bound is a theorem on transcendental inequalities (concavity of wave curves) about reals, not a fact of the source; that the code computes the formulas of the theorem is decided by A09 and A12.')
prop('N03', 'Computed solutions converge with the order of the method',
     'Errors against analytic solutions decrease with the documented rates under mesh refinement.',
     ['inputs', 'configurations'], 'all smooth solutions, meshes and schemes',
     'Tests use three meshes.', ['source/time_loop.template.h'], [('compute_error', 'TimeLoop')],
     na='A limit statement about floating-point runs. The algebraic conditions behind it are decided by A02, B04, B06 and D04.')
prop('N04', 'The implicit viscous step converges and dissipates',
     'The multigrid and conjugate gradient solvers of the parabolic step reach the tolerance, internal energy stays positive and kinetic energy does not grow.',
     ['inputs', 'configurations'], 'all states, viscosities and meshes',
     'Tests run one viscous shock.', ['source/navier_stokes/parabolic_solver.template.h'], [('crank_nicolson_step', 'ParabolicSolver')],
     na='Convergence of iterative solvers and positivity of their results depend on the spectrum of run-time matrices; the tolerance is data.')
prop('N05', 'The vectorised power function is accurate to its documented error',
     'For all positive arguments and exponents in range, ryujin::fast_pow differs from the exact power by at most the documented relative error.',
     ['inputs'], 'all arguments', 'A table of values is compared.', ['source/simd_fast_pow.template.h'], [('fast_pow', 'ryujin')],
     na='A bound on floating-point approximation error over all bit patterns is a numerical enumeration or interval proof, not a static analysis of the source within reach here.')
