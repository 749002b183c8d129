"""per-property design notes: specified/analysed, oracle, bounds, reach"""
D = {
'C01': ('`solve()` of every `FESolver` subclass is interpreted with phases (initDofs, assignEquationNumbers, initSolutionData, assembly, apply, solve, update, post-processors) as trace events.', 'a typestate automaton over the event trace with loop nesting: order, pairing and multiplicity of phases.', 'none: loops are summarised.', 'a wrong order is often invisible on one small model (memory happens to be zero, state happens to be fresh).'),
'C02': ('the argument of every `solveEquations` call, as symbolic matrices/vectors over the segments c|s|l.', 'K_kk u_k = F_k - K_ck^T u_c (increments in nonlinear iterations), compared as linear normal forms.', 'none.', 'tests use few prescribed non-zero values.'),
'C03': ('reaction vector after each static solution.', 'R_c = K_cc u_c + K_ck u_k - F_c as linear normal form.', 'none.', 'reactions are checked in few tests.'),
'C04': ('effects of `assembleGlobalEqMatrices` on every matrix/vector it accumulates into; zeroing routines entry by entry.', 'zeroing event dominates the first contribution; one contribution event per element / constraint.', 'none for loops; zeroing on small patterns.', 'stale values cancel in one-step tests.'),
'C05': ('`applyBoundaryConditions` and the value of the load / prescribed-value vectors at every solve event.', 'scatter-add terms: value x load factor at the DoF of the record.', 'none.', 'time factors other than 1 are rarely tested.'),
'C06': ('`addDof`, marking, numbering, sizes: counters as closed forms, the numbering loop as a summary; concrete tables with up to four entities.', 'bijection laws on the closed forms and on the enumerated tables.', 'tables up to 4 entities; counters unbounded.', 'needs unusual mixtures of constraints.'),
'C07': ('pairs (row, column) written by element, constraint and boundary assembly vs pairs registered by `addEntry` in `assignEquationNumbers`.', 'set inclusion of quantified index sets (guards included).', 'none.', 'missing positions are fatal only for models with such coupling.'),
'C08': ('`Element::assembleK/C/M` templates for every local size, down to the storage matrices.', 'one add-event per local pair at (dof i, dof j) of the right matrix; likewise for forces.', 'sizes the elements instantiate plus witnesses.', 'only one element kind has mass and damping.'),
'C09': ('`BlockSparseSymMatrix<2,3,4>` register/add/read for every index pair of several partitions.', 'one cell per unordered pair, in the block of its segment.', 'partitions enumerated (block sizes 0..4); values symbolic.', 'tests use one partition.'),
'C10': ('general and symmetric sparse matrices: accessors, products (accumulating, transposed), sharing and replacing sparsity, compare, entry lists; index search.', 'dense algebra over the symbolic entries.', 'enumerated patterns up to 5x5; rows up to 13 entries for the search; values symbolic.', 'wrong bisection or transposition shows only on some patterns.'),
'C11': ('`dVec` operations over scripted and generated histories.', 'reference model of buffers, owners and views; entries as terms.', 'the histories listed in the evidence.', 'double frees need a particular history.'),
'C12': ('every dense kernel instantiation (`Mat`, `Vec`, `matBTDBprod`, `matBVprod` ... ) with symbolic operands.', 'the algebraic definition, entry by entry, as polynomials; operands unchanged.', 'instantiated sizes plus witness sizes.', 'a kernel wrong in one off-diagonal entry can pass.'),
'C13': ('Gauss elimination by trace partitioning over pivot orders; PARDISO calls as external events with every error code.', 'A x = b as an identity of rational functions; every non-zero error / zero pivot ends the program; call typestate (analyse before factorise before solve, release once).', 'Gauss up to 4 equations; generated call histories.', 'tests always solve well-behaved systems once.'),
'C14': ('all `new` and `delete` events of scripted life histories of storage, solver, elements, materials, constraints and post-processors, with destructors interpreted by dynamic type; deletes through bases without virtual destructor; call sites copying owning classes.', 'linear typestate: every allocation freed exactly once by the matching form.', 'the histories listed in the evidence.', 'leaks and double frees are silent in tests.'),
'C15': ('DoFs an element adds in `pre()` vs the DoFs its assembly/update reads (effect summaries per class).', 'set inclusion.', 'every element class.', 'a missing DoF is masked when a neighbour registers it.'),
'C16': ('every `getScalar/getVector/getTensor` of every element kind, every query code.', 'result - previous = scale x defined quantity; return value true exactly then.', 'all queries and points; values symbolic.', 'tests use scale 1 and previous 0.'),
'C17': ('element state after different update histories.', 'term must not depend on earlier solutions.', 'two and three updates, repeated assemblies.', 'linear tests update once.'),
'C18': ('shape functions, derivatives, Jacobians and quadrature tables of the isoparametric elements.', 'Kronecker, partition of unity, derivative = d/dxi of the extracted polynomial, exact monomial moments (rational arithmetic with tolerance of printed digits).', 'all tabulated orders.', 'rules not used by a test model are never checked.'),
'C19': ('hyperelastic materials: energy, first/second derivatives, stress and tangent.', 'symbolic differentiation of the extracted energy; S = 2 dW/dC, D = 4 d2W/dCdC.', 'all strains and constants (identity).', 'tests cover one load path per material.'),
'C20': ('label tables, name lookups and factories for every code and near-miss names.', 'injectivity, round trip, class of the created object.', 'all codes.', 'most kinds are never created by tests.'),
'C21': ('token sequence of `VtkProcessor` for models with every element shape.', 'a recursive-descent grammar of the legacy VTK format; tokens compared as terms with the model.', 'mesh sizes unrolled; numbers symbolic.', 'tests do not read the files.'),
'C22': ('@@', '', '', ''),
'C23': ('`TimeControl` next-step functions for a symbolic state.', 'laws of the time axis over every branch of the term.', 'all states.', 'rounding of end times and step limits.'),
'C24': ('acceptance branch of the nonlinear iteration: facts known at publication, exits of the loop.', 'publication is control-dependent on criterion; NaN, divergence and exhaustion are fatal.', 'none.', 'tests converge.'),
'C25': ('one step of the transient solver.', 'Newmark relations and equation of motion at the new time (linear normal form).', 'all parameters.', 'one test with default parameters.'),
'C26': ('`Mpc` assembly; `RigidBodyMpc` and collections.', 'coefficient/row scatter; Rodrigues rotation and its derivative by identity testing.', 'all rotations and arms.', 'tests rotate about one axis.'),
'C27': ('dump / compare routines of the solver and the text formats of matrices and vectors.', 'round trip of the written tokens through the reader; order and pairing of quantities.', 'listed patterns; all values.', 'digits lost only for some values.'),
'C28': ('`ReactionProcessor` for 0..4 nodes and 1..3 DoFs.', 'sum over selected nodes per DoF and step.', 'sizes enumerated; values symbolic.', 'one configuration tested.'),
'C29': ('matrices and loads of every element, orders 1..3.', 'derivatives of the energy of the formulation (identity testing).', 'all geometries and solutions.', 'tests use regular meshes.'),
'C30': ('tensor helpers.', 'defining identities of determinant, inverse and invariants.', 'all tensors.', 'only reached through material tests.'),
}
