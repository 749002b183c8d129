TRUST = ('Decided from the type-checked AST of the current sources by abstract interpretation; nothing is executed. Trusted: clang\'s AST, the '
         'extractor and abstract interpreter in engine/, models of std and external libraries; real-number arithmetic (no rounding).')
NA = {}
TECH = {
 'C01': ('typestate / phase-order analysis of every solver class over its abstract event trace', 'All iterations of all loops by loop summaries.'),
 'C02': ('symbolic value-flow (linear terms over c|s|l segments) of the solved system', 'All models: vectors and matrices stay symbolic.'),
 'C03': ('symbolic value-flow (linear terms over c|s|l segments) of the reaction vector', 'All models: vectors and matrices stay symbolic.'),
 'C04': ('event-order and effect analysis of the global assembly', 'All elements and constraints by loop summaries.'),
 'C05': ('effect analysis of boundary-condition application (symbolic scatter-add into force and prescribed-value vectors)', 'All loads and prescribed values by loop summaries.'),
 'C06': ('counter and effect analysis (closed-form loop summaries) of DoF registration, marking and numbering', 'All models by loop summaries.'),
 'C07': ('effect-inclusion analysis: positions written by assembly are a subset of positions registered in the sparsity pattern', 'All elements, constraints and DoF sets by loop summaries.'),
 'C08': ('value-flow of each element contribution from the element routine to the global matrix entry (effect summaries)', 'All local matrix sizes instantiated by the elements and witness instantiations.'),
 'C09': ('value-flow of pattern construction (add / compress) on generated operation sequences, CSR arrays and lookup results compared with the set of added positions', 'All entry values; generated and edge-case insertion orders over the pattern class.'),
 'C10': ('value-numbering of every block and matrix operation over symbolic entries, compared entry by entry with the algebraic definition', 'All entry values; the pattern shapes listed in the evidence.'),
 'C23': ('value-flow of TimeControl: the new state as a term of the old state and the step, laws of the time axis decided by identity testing over all conditions of the term', 'All times and step sizes (terms), both outcomes of every condition.'),
 'C28': ('effect analysis: sequence of tokens written by every tabular writer, as terms of the stored results', 'All stored values; table sizes stay symbolic or are unrolled.'),
 'C12': ('interprocedural value-numbering of every dense kernel, compared entry by entry with the algebraic definition (polynomial normal form)', 'All operand values; the instantiated sizes of the library and of witness/dense.cpp.'),
 'C15': ('effect analysis: DoFs registered in pre() against DoFs used by assembly and update, per element class', 'Every element class, every DoF it uses.'),
 'C16': ('effect and value-flow analysis of every result query: the added term as a function of scale, previous value and element state, compared with the definition of the quantity by identity testing', 'All element kinds, all query codes, point and mean queries.'),
 'C17': ('history (non-interference) analysis: state terms after different update histories compared for dependence on earlier solutions', 'All element kinds; histories of repeated updates and assemblies.'),
 'C18': ('value-numbering of shape functions, derivatives and quadrature tables; identities decided in polynomial normal form / exact rational arithmetic', 'All natural coordinates and all tabulated rules.'),
 'C19': ('interprocedural value-numbering of the material routines; derivative identities decided by symbolic differentiation and polynomial identity testing of the extracted terms', 'All strains and constants (identity of terms).'),
 'C24': ('dataflow / control-dependence analysis of the acceptance branch of the nonlinear iteration', 'All iterations by loop summaries.'),
 'C25': ('symbolic value-flow of one time step compared with the Newmark relations', 'All parameters and models: values stay symbolic.'),
 'C29': ('value-flow of every element matrix and load (abstract interpretation of pre/update/build routines) compared with derivatives of the energy of the formulation, by identity testing of the extracted terms', 'All geometries, constants and solutions (identity of terms); integration orders 1..3.'),
 'C30': ('interprocedural value-numbering of the tensor helpers, identities decided by polynomial identity testing of the extracted terms', 'All tensors (identity of terms).'),
 'C11': ('typestate of buffer ownership (alloc / borrow / free) and value-flow of the entries over scripted and generated operation histories', 'All entry values; the histories listed in the evidence.'),
 'C21': ('effect analysis: token sequence written by the VTK writer parsed by the grammar of the format and compared as terms with the model', 'All coordinates, solutions and results (terms); mesh sizes unrolled for every element kind.'),
 'C14': ('ownership typestate: every allocation is a linear resource followed through abstract life histories (creation, hand-over, clearing, re-use, destruction) interpreted with the destructor of the dynamic type; virtual-destructor and copy rules over the class hierarchy and every delete/copy expression', 'Histories: one per element, material, solver and container kind, every clear operation between fills, 24 generated histories of the storage, solution data built and dropped repeatedly, sparse/dense matrices and vectors with copies, moves and views. Temporaries in full expressions are not charged with leaks.'),
 'C13': ('trace-partitioned value-flow of the elimination (one class of inputs per pivot order), A x = b decided as an identity of the extracted rational functions; typestate of the PARDISO calls and their error exits', 'All matrices with the listed pivot orders up to four equations; all error codes; generated call histories.'),
 'C20': ('value-numbering of every name and code lookup and every factory function', 'Every code, every name and the neighbouring unknown ones.'),
 'C26': ('value-flow of constraint coefficients into the matrix; rigid-body terms compared with the derivatives of the Rodrigues rotation by identity testing of the extracted terms', 'All rotations, arms and multipliers (identity of terms).'),
 'C27': ('value-flow of the written token sequence into the reader (round trip of terms, stream format state tracked), pairing of dump and comparison by abstract runs of both routines', 'All entry values; the pattern shapes and the two analysis kinds listed in the evidence.'),
}
