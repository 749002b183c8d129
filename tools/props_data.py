prop('C01', 'Every solver runs the analysis phases in the required order',
     'In every analysis type, element and constraint DoFs are registered before constraints are marked, constraints before equations are numbered, numbering before storage is allocated, and allocation before anything is assembled; every solve is preceded by assembly and boundary conditions for the current time and followed by publication of the new state to the elements. Post-processors are told once before the first solution, once per published step (after publication) and once after the last.',
     ['inputs', 'configurations'], 'all models, all solver classes, all loop iterations of a solve',
     'The tests run a handful of models; an ordering that is wrong only for a second iteration or for one solver class is not sampled.',
     ['FESolver.cpp', 'FEStorage.cpp'], [('solve()', 'FESolver.cpp'), ('solver phase calls', 'FESolver.cpp')])
prop('C02', 'Prescribed values are eliminated exactly from the system that is solved',
     'The system given to the equation solver is the block of the tangent matrix that belongs to unknown DoFs and constraint equations, and its right-hand side is applied loads plus element forces on those equations minus the coupling block transposed times the prescribed values (their increment in a nonlinear iteration). The result is stored as (or, in a nonlinear iteration, added to) the unknown values.',
     ['inputs'], 'all models, loads, prescribed values and iterations',
     'Tests use mostly homogeneous constraints, where a missing or mis-signed coupling term is invisible.',
     ['FESolver.cpp'], [('right-hand side assembly', 'FESolver.cpp')])
prop('C03', 'Reactions equal the residual of the constrained equations',
     'After a linear or nonlinear solution the reaction stored for each constrained DoF is the constrained rows of the tangent matrix times the (incremental) solution minus the forces on those rows; unconstrained DoFs keep their applied load.',
     ['inputs'], 'all models and loadings', 'Only a few reactions of two models are compared by tests.',
     ['FESolver.cpp'], [('reaction recovery', 'FESolver.cpp')])
prop('C04', 'Every assembly starts from zeroed global matrices',
     'Each global assembly zeroes every matrix and vector it is going to accumulate into before the first element contributes, and every element contributes exactly once, followed by every multi-point constraint.',
     ['inputs', 'histories'], 'all assemblies of all iterations, load steps and analysis types',
     'A missing reset shows only from the second assembly on and only for the matrices of that analysis type.',
     ['FEStorage.cpp', 'FESolver.cpp'], [('assembleGlobalEqMatrices', 'FEStorage.cpp')])
prop('C05', 'Every load and prescribed value is applied, scaled by time',
     'For any set of loads and prescribed values, each load adds value times load factor to its DoF force, each prescribed value times load factor is what its constrained DoF takes, loads on the same DoF add up, and nothing else writes these.',
     ['inputs', 'histories'], 'any list of loads/constraints and any time', 'Tests only use time 1 or a few steps and few loads.',
     ['FESolver.cpp'], [('applyBoundaryConditions', 'FESolver.cpp'), ('setConstrainedDofs', 'FESolver.cpp')])
prop('C06', 'Equation numbers partition DoFs: constrained, unknown, constraints',
     'Every registered DoF gets a distinct equation number from 1 without gaps, all constrained DoFs before all unknown DoFs, followed by one number per multi-point constraint; the sizes the solver uses for the three segments equal those counts.',
     ['inputs'], 'all models', 'Tests cannot enumerate meshes and constraint sets.', ['FEStorage.cpp', 'Dof.cpp', 'FESolver.cpp'],
     [('assignEquationNumbers', 'FEStorage.cpp')])
prop('C07', 'The sparsity pattern covers everything assembly can write',
     'For every model each position that element, multi-point constraint and boundary assembly may add to is registered in the sparsity structure before it is frozen, for stiffness, damping and mass alike.',
     ['inputs', 'programs'], 'all meshes, element kinds (with element DoFs) and constraints',
     'A missing position aborts only in models with that combination.', ['FEStorage.cpp', 'math/SparseMatrix.cpp'],
     [('initSolutionData', 'FEStorage.cpp')])
prop('C08', 'Element contributions reach exactly the right global entry',
     'Whatever an element adds for a pair of local DoFs is added once to the same kind of global matrix (stiffness, damping or mass) at the equations of those DoFs, and force contributions to the right global vector entry; no contribution is lost, doubled or sent to another matrix.',
     ['inputs', 'programs'], 'all element kinds, DoF sets and node orders', 'Tests cover a few element/DoF combinations.',
     ['elements/element.h', 'FEStorage.h', 'FEStorage.cpp'], [('assembleK/C/M, addValueK/C/M/F/R', 'elements/element.h')])
prop('C09', 'Block symmetric matrices route each entry to one canonical block',
     'For any pair of global indices, registering, adding and reading an entry of a block symmetric matrix address the same single stored location, the same for (i,j) and (j,i).',
     ['inputs'], 'all index pairs and block partitions', 'Tests touch a few indices.', ['math/BlockSparseMatrix.h'],
     [('addEntry/addValue', 'math/BlockSparseMatrix.h')])
prop('C10', 'Sparse matrix operations agree with dense algebra',
     'Sparse matrices return what was added at each registered position and zero elsewhere, treat (i,j) and (j,i) alike when symmetric, and their matrix-vector products equal the mathematical product (transposed where asked), overwriting or accumulating as documented.',
     ['inputs'], 'all sizes, patterns and values', 'Tests use fixed small matrices.', ['math/SparseMatrix.cpp', 'math/SparseMatrix.h'],
     [('matBVprod, matBTVprod, getIndex', 'math/SparseMatrix.cpp')])
prop('C11', 'Dense vectors own or alias memory consistently',
     'A dense vector either owns its storage (freed once) or is a view of another vector (never freed), element-wise arithmetic acts on every entry exactly, and copying or resizing never leaves two owners of one buffer.',
     ['inputs', 'histories'], 'all sequences of operations', 'Double frees and aliasing depend on call sequences.', ['math/Vec.cpp', 'math/Vec.h'],
     [('dVec', 'math/Vec.cpp')])
prop('C12', 'Dense matrix kernels compute the stated products for every size',
     'The fixed-size and dynamic matrix kernels used by the elements compute exactly the product they are named for, accumulate or overwrite as documented, and touch nothing else, for every size the library instantiates and every operand value.',
     ['inputs', 'programs'], 'all instantiations, all operand values', 'Tests use a few sizes and values.', ['math/Mat.h', 'math/Mat.cpp', 'math/Vec.h'],
     [('kernels', 'math/Mat.h')])
prop('C13', 'Equation solvers solve the system they are given or end with a fatal error',
     'An equation solver returns the solution of the system it is given (also after other values, another pattern or another size, and for repeated substitutions), leaves the caller\'s matrix and right-hand side untouched, writes only the solution, and ends the program with a fatal error whenever a factorization, solution or pivot fails or the system is outside its limits, so no unusable solution is passed on.',
     ['inputs', 'fault_sequences'], 'all matrices and solver error codes', 'Tests solve only well-posed systems.', ['math/EquationSolver.cpp'],
     [('GaussDenseEquationSolver, PARDISO_equationSolver', 'math/EquationSolver.cpp')])
prop('C14', 'Every heap object has one owner that frees it exactly once',
     'Nodes, elements, constraints, materials, components, matrices and post-processors handed to a container are freed exactly once when it is destroyed or cleared, through a destructor that runs the derived part, and a cleared container can be reused; vectors, dynamic matrices, sparse matrices and their patterns release the arrays they own exactly once through copies, moves, views, re-sizing and re-use.',
     ['histories'], 'all creation/clear/destruction sequences', 'Leaks and double frees do not fail the tests.', ['FEStorage.cpp', 'FESolver.cpp', 'Mpc.h', 'PostProcessor.h', 'materials/material.h'],
     [('deleteX(), destructors', 'FEStorage.cpp')])
prop('C15', 'Elements register every DoF they assemble or read',
     'Every element kind registers, before numbering, all nodal and element DoFs that its stiffness, damping, mass assembly and result update later use.',
     ['programs', 'inputs'], 'all element kinds', 'Some kinds are never exercised by tests.', ['elements/element.h', 'elements/PLANE41.cpp', 'elements/SOLID81.cpp', 'elements/QUADTH.cpp', 'elements/TETRA0.cpp', 'elements/TETRA1.cpp', 'elements/TRUSS3.cpp', 'elements/TRIANGLE4.cpp', 'elements/INTER0.cpp', 'elements/INTER3.cpp'],
     [('pre()', 'elements/PLANE41.cpp')])
prop('C16', 'Result queries accumulate scale times the result, and only if known',
     'Every element result query adds scale times the requested quantity to the caller\'s scalar, vector or tensor, returns true exactly when it did, and otherwise returns false leaving it untouched; averages over integration points are volume weighted.',
     ['inputs', 'programs'], 'all element kinds, codes, scales and integration points', 'Only two query kinds are tested.', ['elements/PLANE41.cpp', 'elements/SOLID81.cpp', 'elements/TETRA0.cpp', 'elements/TETRA1.cpp', 'elements/TRIANGLE4.cpp', 'elements/INTER0.cpp', 'elements/INTER3.cpp', 'elements/TRUSS3.cpp'],
     [('getScalar/getVector/getTensor', 'elements/PLANE41.cpp')])
prop('C17', 'Element state depends only on the current solution',
     'An element\'s strains, stresses and other derived results after an update are a function of the current DoF values alone: updating twice with the same solution gives the same results.',
     ['histories'], 'all update histories', 'Linear tests update once.', ['elements/PLANE41.cpp', 'elements/SOLID81.cpp', 'elements/TETRA0.cpp', 'elements/TETRA1.cpp', 'elements/TRIANGLE4.cpp', 'elements/INTER0.cpp', 'elements/INTER3.cpp', 'elements/TRUSS3.cpp'],
     [('update()', 'elements/TETRA0.cpp')])
prop('C18', 'Shape functions interpolate and quadrature integrates exactly',
     'Shape functions are 1 at their own node and 0 at the others and sum to 1, their derivatives are the true derivatives, and each tabulated quadrature rule has weights summing to the reference volume and integrates polynomials of its nominal degree exactly.',
     ['inputs'], 'all points, element shapes and integration orders', 'Tests integrate a few functions on a few shapes.', ['elements/isoparametric.cpp', 'elements/isoparametric.h'],
     [('formFunc, formFuncDeriv, quadrature tables', 'elements/isoparametric.cpp')])
prop('C19', 'Material stress and tangent are derivatives of the energy',
     'For each hyperelastic material the first and second derivative functions are the exact derivatives of its strain energy in its invariants, and the stress and tangent routines are built from them consistently.',
     ['inputs'], 'all strains and material constants', 'Tests check one converged load path.', ['materials/materials_hyperelastic.cpp', 'materials/materials_hyperelastic.h'],
     [('W, W_first_derivatives, W_second_derivatives', 'materials/materials_hyperelastic.cpp')])
prop('C20', 'Name tables and factories are exhaustive and consistent',
     'Every element kind, material, DoF and result code has a distinct name; looking up a name gives the code that prints as that name; the factories create the class of that code, and unknown names are rejected.',
     ['inputs', 'programs'], 'all codes and names', 'Tests construct three kinds.', ['elements/ElementFactory.cpp', 'materials/MaterialFactory.cpp', 'Dof.cpp', 'FEComponent.cpp', 'elements/query.h'],
     [('label tables and switches', 'elements/ElementFactory.cpp')])
prop('C21', 'VTK output is well formed and describes the model',
     'Each VTK file declares as many points, cells, index entries and data tuples as it then writes, with node numbers, cell type codes and components matching the model, in both deformed and undeformed output.',
     ['inputs'], 'all models and result selections', 'Tests do not read VTK output.', ['VtkProcessor.cpp'], [('VtkProcessor', 'VtkProcessor.cpp')])
prop('C22', 'Mesh readers store every record in the field it belongs to',
     'Mesh readers put each parsed coordinate, connectivity entry, attribute, boundary value and constraint coefficient into the record and position it belongs to, replace previous mesh data, and report failure for unreadable input rather than a partial success.',
     ['inputs'], 'all mesh files', 'One or two files per format are tested.', ['FEReaders.cpp', 'FEReaders.h'], [('readCdbFile, readNeuFile', 'FEReaders.cpp')])
prop('C23', 'Time stepping reaches the end time exactly and monotonically',
     'Time advances by positive steps, never past the end time, the last step lands on the end time exactly, and normalized time runs from 0 to 1.',
     ['inputs', 'histories'], 'all start/end/step sequences', 'Tests run three schedules.', ['FESolver.cpp', 'FESolver.h'], [('TimeControl', 'FESolver.cpp')])
prop('C24', 'A nonlinear step is published only if it converged',
     'A nonlinear load step is passed to post-processing and the next step is started only after an iteration whose convergence measure was below the criterion; divergence, NaN or exhausting the iteration limit is a fatal error.',
     ['inputs', 'histories'], 'all nonlinear analyses', 'Tests only converge.', ['FESolver.cpp'], [('NonlinearFESolver::solve', 'FESolver.cpp')])
prop('C25', 'The transient solver is a consistent Newmark scheme',
     'For every Newmark parameter pair and time step the effective matrix, right-hand side and velocity/acceleration updates satisfy the Newmark relations and the equation of motion at the new time.',
     ['inputs', 'configurations'], 'all alpha, delta, dt and model matrices', 'The test uses one parameter pair, where several coefficients coincide.', ['FESolver.cpp'], [('LinearTransientFESolver', 'FESolver.cpp')])
prop('C26', 'Multi-point constraints enter the equations exactly',
     'Every constraint equation contributes each of its coefficients once at its row and the DoF column (symmetrically) and its constant to the right-hand side, and rigid-body constraints use the kinematics of a rigid rotation (u = w + (C(theta) - I)(q - p), its exact derivatives, and its residual as the constant).',
     ['inputs'], 'all constraints', 'Tests cover one rotation axis.', ['Mpc.cpp', 'Mpc.h', 'FEStorage.cpp'], [('Mpc, RigidBodyMpc', 'Mpc.cpp')])
prop('C27', 'Matrix dumps and comparisons pair up the same quantities',
     'The dump of global matrices and vectors and the comparison routine write and read the same quantities in the same order and format, and a difference above tolerance is reported.',
     ['inputs'], 'all models', 'Not tested.', ['FESolver.cpp', 'math/SparseMatrix.cpp', 'math/Vec.cpp'], [('dump/compareMatricesAndVectors', 'FESolver.cpp')])
prop('C28', 'Reaction post-processing sums the selected reactions per step',
     'The reaction processor reports for every stored step the sum of reactions over all selected nodes for each selected DoF, and nothing else.',
     ['inputs', 'histories'], 'all node selections and steps', 'Only one selection is tested.', ['ReactionProcessor.cpp'], [('ReactionProcessor', 'ReactionProcessor.cpp')])
prop('C29', 'Element matrices are symmetric and ignore rigid translation',
     'The stiffness (conductivity) each closed-form element assembles is symmetric, gives zero force for a rigid translation (uniform temperature), scales linearly with its material constant, and equals the standard expression for its geometry.',
     ['inputs'], 'all geometries and constants', 'Tests use one mesh per element.', ['elements/TRUSS3.cpp', 'elements/TETRA0.cpp', 'elements/TETRA1.cpp', 'elements/TRIANGLE4.cpp', 'elements/INTER0.cpp', 'elements/QUADTH.cpp'], [('buildK', 'elements/TRUSS3.cpp')])
prop('C30', 'Tensor helper formulas satisfy their defining identities',
     'The determinant, inverse and invariant helpers of the deformation tensor satisfy their defining identities for every tensor.',
     ['inputs'], 'all tensors', 'Not tested directly.', ['solidmech.cpp', 'solidmech.h', 'math/Mat.h'], [('solidmech', 'solidmech.cpp')])
