RM = 'runtime monitoring: '
NOTE = 'Held on the seeded executions observed (counts in the evidence file), against an independent oracle; says nothing about inputs outside the generators. Trusts numpy/scipy and the oracle (self-tested in setup). '

prop('C01', 'Products and (anti)commutators are the exact operator algebra',
     'For any two Pauli or Majorana strings, or any two operators built from them, the product, commutator and anticommutator returned are exactly the ones of the represented quantum operators, including phases and coefficients, for every orbital label and order of labels between the two. Every returned operator string is Hermitian, in canonical label order and free of repeated labels, and a zero result is reported as zero.',
     ['inputs'], 'all pairs of strings/operators of one type, any supports, labels and complex coefficients',
     'The tests compare a handful of hand-written products on 2-4 labels; the sign rules depend on the relative order of all labels, overlaps and operator kinds.',
     ['qosy/algebra.py'], [('sorted-merge of labels with sign/phase bookkeeping', 'qosy/algebra.py:product,commutator,anticommutator')],
     NOTE + 'Contracts on product/commutator/anticommutator also observe calls made inside the library.',
     RM + 'post-condition monitors against an independent bit-mask Pauli algebra')

prop('C02', 'Structure constants, Liouvillian and commutant matrices are faithful',
     'Each column of the matrices of structure constants and of the Liouvillian, read in the returned extended basis, is exactly the (anti)commutator or product of the corresponding basis string or operator with the given operator, in the documented order of arguments, and all result formats describe the same numbers. The commutant matrix is the Gram matrix of these images, so it is Hermitian, positive and its kernel is exactly the commuting combinations.',
     ['inputs', 'configurations'], 'all bases (or lists of operators, dependent or complex ones too), operators, operation modes and result formats',
     'Tests check one small basis per function; errors in index book-keeping, complex coefficients or list input only show for other shapes.',
     ['qosy/algebra.py', 'qosy/core.py'], [('structure constants and their contraction with coefficients', 'qosy/algebra.py:structure_constants,liouvillian_matrix,commutant_matrix')],
     NOTE, RM + 'every returned column re-evaluated by an independent algebra oracle')

prop('C03', 'Conversion between string types preserves the operator',
     'Converting an operator string or operator between Pauli, Majorana and Fermion types (Jordan-Wigner) always yields the same quantum operator, up to the identity component only when the identity is excluded by default, and kept exactly when it is requested. Round trips give back the original operator, and the conversion matrix between two bases maps coefficient vectors the same way conversion maps operators, raising an error when the target basis is too small.',
     ['inputs', 'configurations'], 'all strings and operators of the three types, arbitrary (gapped, large) labels, both identity options, all cluster bases on few orbitals',
     'Tests convert a fixed set of small strings; string lengths, gaps between labels, hermitian-conjugate classes and identity handling combine unboundedly.',
     ['qosy/conversion.py', 'qosy/basis.py'], [('Jordan-Wigner substitution tables and products', 'qosy/conversion.py:convert,conversion_matrix')],
     NOTE, RM + 'equality of represented operators through independent Jordan-Wigner matrices')

prop('C04', 'Operator strings are Hermitian, and equal exactly when identical',
     'Any valid spelling of an operator string (constructor, parser, container and number types) yields the same object: equal, equally hashed, equally named, found in dictionaries and bases; two strings that differ in type, prefactor, operators or labels are never equal. Pauli and Majorana strings are Hermitian, orthonormal and (except the identity) traceless, with the Majorana prefactor set automatically, and inconsistent specifications are rejected.',
     ['inputs'], 'all operator strings and spellings, and all pairs of them',
     'Tests construct a dozen strings and compare few pairs.',
     ['qosy/operatorstring.py'], [('normalised prefactor, cached name, equality and hash', 'qosy/operatorstring.py')],
     NOTE, RM + 'spelling-variant and pairwise equality/hash monitors')

prop('C05', 'Bases and operators stay consistent under any history of operations',
     'After any sequence of constructions, additions, subtractions, in-place growth, scaling, zero removal, normalisation and look-ups, a Basis is an ordered set whose positions and indices agree and an Operator is the correct linear combination with one coefficient per string. No operation changes any other live Basis, Operator or input list, also when they share strings, lists or Bases.',
     ['histories', 'inputs'], 'all histories of container operations on several objects that share parts',
     'Tests perform a few additions on unshared objects; aliasing and stale indices need multi-step histories to show.',
     ['qosy/basis.py'], [('index dictionary kept in step with the list of strings', 'qosy/basis.py:Basis'), ('coefficients kept in step with the basis', 'qosy/basis.py:Operator')],
     NOTE, RM + 'random histories checked after each step against a dictionary model of every live object')

prop('C06', 'Cluster bases are complete, independent and exactly the requested strings',
     'A cluster basis with bound k on given orbital labels contains, exactly once each, every canonical operator string of the requested type supported on the requested numbers of orbitals (all of 1..k for an integer, only the listed numbers for a list), with the identity exactly when requested. All its strings are Hermitian and linearly independent, and with k equal to the number of orbitals and the identity they span all operators, for any labels in any order.',
     ['inputs', 'configurations'], 'all label sets, bounds k, types and identity options',
     'Tests count or list a few small bases; duplicates, missing classes or dependent strings depend on label gaps, k lists and fermion string lengths.',
     ['qosy/basis.py'], [('enumeration of labels and operator names', 'qosy/basis.py:cluster_basis')],
     NOTE, RM + 'returned strings compared with an independent enumeration and matrix rank')

prop('C07', 'Distance bases contain exactly the spatially local strings',
     'A distance basis contains, once each, exactly those operator strings of the requested type and sizes whose orbitals all lie within the given range of each other, measured with the closest periodic images, and on the allowed orbitals only, with the identity exactly when requested. This holds for every lattice, dimension, unit cell, boundary condition and range, including ranges exactly equal to a neighbour distance.',
     ['inputs', 'configurations'], 'all lattices, ranges, k, types and allowed orbitals',
     'Tests use one or two lattices and ranges; locality must hold for every geometry, in particular small or skewed periodic ones.',
     ['qosy/basis.py', 'qosy/lattice.py'], [('pairwise distance filter while clusters grow', 'qosy/basis.py:distance_basis')],
     NOTE, RM + 'brute-force enumeration over independently computed distances')

prop('C08', 'Transformations are (anti)unitary symmetries acting as documented',
     'Applying a transformation (label permutation, space group, time reversal, particle-hole, spin flip, spin parity, charge conjugation or user rule) to an operator string or operator gives exactly the image defined by its documented action on single orbitals; images of products are products of images, so Hermiticity, norms and commutators are preserved. Products of transformations act as their composition in the documented order and integer powers (zero included) as repeated application, without changing their arguments.',
     ['inputs', 'configurations', 'histories'], 'all transformations, their products and powers, and all operators with real coefficients',
     'Tests check individual strings; antiunitary phases, signs from reordering and composition order need combinations.',
     ['qosy/transformation.py'], [('rules applied string by string', 'qosy/transformation.py:Transformation')],
     NOTE, RM + 'images compared with an independent automorphism of the Pauli algebra')

prop('C09', 'Symmetry matrices and invariant operators are sound and complete',
     'Each column of a symmetry matrix is the transformed basis string or operator expressed in the given basis or list of operators, projected onto its span when it is not closed. The invariant (or sign-changing) operators returned are transformed into themselves (or minus themselves), are linearly independent, and as many as exist in the search space.',
     ['inputs', 'configurations'], 'all transformations and search spaces: bases, lists of orthonormal, overlapping or dependent operators',
     'Tests use one closed orthonormal basis; completeness and non-closed or non-orthonormal spaces are not sampled.',
     ['qosy/transformation.py', 'qosy/core.py'], [('projection of transformed strings on the basis', 'qosy/transformation.py:symmetry_matrix'), ('null space of S - 1', 'qosy/core.py:invariant_operators')],
     NOTE, RM + 'invariance and dimension compared with an independent null space computation')

prop('C10', 'Commuting operator search is sound and complete',
     'Every operator returned by the search for operators commuting (or anticommuting) with a given operator does so exactly (to rounding), the returned ones are orthonormal or independent combinations of the search space, and no independent solution in the search space is missing. This holds for bases and for lists of operators, also overlapping, dependent or with complex coefficients.',
     ['inputs', 'configurations'], 'all operators, search spaces and solver options',
     'Tests check one or two Hamiltonians with known answers.',
     ['qosy/core.py', 'qosy/algebra.py'], [('null space of the commutant matrix', 'qosy/core.py:commuting_operators')],
     NOTE + 'With the sparse solver (num_vecs below the dimension) only soundness is decided, because ARPACK may miss degenerate copies.',
     RM + 'every returned operator re-commuted, dimension compared with an independent null space')

prop('C11', 'The symmetric operator generator finds exactly the operators with all given symmetries',
     'After generating, entry i of the cumulative results is an independent set of operators that commute (or anticommute) with, or are invariant (or odd) under, all of the first i symmetries as requested, and no such operator of the search space is missing; noncumulative results fulfil each symmetry separately. This holds for any search space, order and mixture of operator and transformation symmetries, options such as sparsifying or orthogonalizing, and repeated calls.',
     ['inputs', 'configurations', 'histories'], 'all search spaces, lists of symmetries, options and call histories',
     'Tests use one model with two symmetries.',
     ['qosy/core.py'], [('successive projection on null spaces', 'qosy/core.py:SymmetricOperatorGenerator')],
     NOTE + 'Sparse-solver runs are checked for soundness only.', RM + 'each entry compared with the null space of the stacked independent residuals')

prop('C12', 'Ladder operator searches return exactly the ladder operators of the search space',
     'The ladder-operator search for a Hermitian operator O returns normalised, independent operators R of the search space with [O, R] = d R for the energy d > 0 returned with each, and misses none. The inverse search, given R, returns a normalised operator O of the space with [O, R] = d R, d > 0, exactly when one exists, and independent operators that span everything in the space that commutes with R.',
     ['inputs', 'configurations'], 'all Hermitian operators, given ladder operators and search spaces, closed under commutation or not',
     'Tests check one spin, one fermion and BdG Hamiltonians on four orbitals from one random seed.', ['qosy/core.py'],
     [('eigenvectors of the Liouvillian matrix', 'qosy/core.py:_ladder_operators'), ('pseudo-inverse and null space', 'qosy/core.py:_inverse_ladder_operators')],
     NOTE, RM + 'every returned operator re-commuted, number compared with an independent spectrum')

prop('C13', 'Generated Lie algebras are exactly the closure of their generators',
     'The operators returned when generating a Lie algebra span exactly the smallest space that contains the generators and is closed under commutators: linearly independent, Hermitian, closed, containing every generator and nothing else. The computation terminates for every list of generators, including linearly dependent ones.',
     ['inputs'], 'all lists of generators (strings or operators) of finite-dimensional algebras',
     'Tests generate two small algebras; termination and rank decisions depend on rounding and on overlapping generators.',
     ['qosy/algebra.py'], [('iterated commutators with orthogonal projection', 'qosy/algebra.py:generate_lie_algebra')],
     NOTE, RM + 'independent closure computation, span comparison and progress monitor')

prop('C14', 'Symmetrized bases are exactly the group averages',
     'The symmetrized basis of a basis under permutation generators consists of linearly independent operators, each invariant under the whole generated group, that span exactly the group averages of the given basis strings. This holds for every generating set (redundant, in any order) and also for bases that are not closed under the group.',
     ['inputs'], 'all permutation groups and bases', 'Tests use one group and basis.',
     ['qosy/symmetrization.py'], [('group closure and averaging', 'qosy/symmetrization.py:symmetrize_basis')],
     NOTE, RM + 'comparison with averages over the independently generated group')

prop('C15', 'Lattice geometry, orbital indices and space-group permutations are consistent',
     'A lattice contains each orbital of each unit cell once; looking up the position and name of an orbital, translated by any whole periods along periodic directions, returns its index and any other position or name returns -1, and distances are the minimum over all periodic images. A space-group operation relabels every orbital to the one at the transformed position, and is rejected when it does not map the lattice to itself.',
     ['inputs', 'configurations'], 'all lattices (any unit cell, atoms also outside of it), boundary conditions, positions and affine maps',
     'Tests check a few square and chain positions.',
     ['qosy/lattice.py', 'qosy/transformation.py'], [('rounded position dictionary and boundary vectors', 'qosy/lattice.py:Lattice'), ('orbital permutation', 'qosy/transformation.py:space_group_symmetry')],
     NOTE, RM + 'look-ups and distances compared with an independent geometry model')

prop('C16', 'Matrices, vectors and eigenstates represent the operator exactly',
     'The matrix of an operator on given orbitals equals its tensor-product definition (first orbital leftmost), is the same for every spelling or string type, and building an operator back from a matrix, or a coefficient vector from an operator, loses nothing. Diagonalization returns all eigenvalues in ascending order with orthonormal eigenvectors of that matrix, and orbitals that do not fit are rejected.',
     ['inputs', 'configurations'], 'all operators of the three types, numbers of orbitals and solver options',
     'Tests diagonalize a few spin chains and look at their lowest energies.',
     ['qosy/diagonalization.py'], [('Kronecker products of Pauli matrices', 'qosy/diagonalization.py:to_matrix,to_operator'), ('coefficients by index', 'qosy/diagonalization.py:to_vector'), ('eigenvectors', 'qosy/diagonalization.py:diagonalize')],
     NOTE + 'Fermion input is compared up to the identity, which conversion drops by default. The randomised sparse solver is checked for soundness and the lowest energy only.',
     RM + 'independent dense matrices, residual and orthonormality monitors')

prop('C17', 'Free-fermion solvers agree with exact many-body physics',
     'The single-particle energies and ground-state energies returned for tight-binding, BdG and general quadratic Hamiltonians reproduce the exact many-body spectrum, and every returned mode is a normalised fermionic eigenmode of the Hamiltonian with the energy reported for it, also with degenerate or zero modes. Operators that are not quadratic (or do not conserve particles, for tight-binding) are rejected.',
     ['inputs'], 'all quadratic Hamiltonians, spelled with any labels and string type',
     'Tests use two uniform chains; zero modes, disconnected orbitals and disorder exercise other paths.',
     ['qosy/diagonalization.py'], [('single-particle matrices', 'qosy/diagonalization.py:diagonalize_quadratic_tightbinding,diagonalize_bdg'), ('2x2 block structure of the real Schur form', 'qosy/diagonalization.py:diagonalize_quadratic')],
     NOTE + 'At most 5 orbitals, energies up to the identity component.', RM + 'many-body spectra from independent dense matrices, modes through their commutators')

prop('C18', 'Transforming states, reducing them and their entropies are consistent with quantum mechanics',
     'Applying an orbital permutation to a state is unitary and agrees with transforming the operators measured in it. The reduced density matrix on any set of orbitals, in any order, is positive with unit trace and gives every expectation value on these orbitals, and the entropy returned is the Renyi entropy of that matrix, equal for both halves of a pure state.',
     ['inputs', 'configurations'], 'all states, permutations, subsystems and Renyi indices',
     'Tests use singlets and product states.',
     ['qosy/diagonalization.py'], [('bit arithmetic on basis-state indices', 'qosy/diagonalization.py:apply_transformation,reduced_density_matrix,renyi_entropy')],
     NOTE + 'At most 6 orbitals.', RM + 'expectation values in independently built matrices')

prop('C19', 'Linear-algebra tools preserve the spaces they are given',
     'Orthogonalizing vectors returns orthonormal vectors spanning the same nested spaces, with dependent ones dropped; the intersection of two spaces is an orthonormal basis of exactly the common vectors; and sparsifying vectors returns as many vectors that span the same space. Dense and sparse, real and complex input is treated alike and is not modified.',
     ['inputs'], 'all matrices with clear rank',
     'Tests use fixed small matrices; zero, dependent and complex columns are not sampled.',
     ['qosy/tools.py'], [('modified Gram-Schmidt', 'qosy/tools.py:gram_schmidt'), ('overlaps of two bases', 'qosy/tools.py:intersection'), ('LU factorization', 'qosy/tools.py:sparsify')],
     NOTE + 'Singular values are 0 or at least 1e-3 of the largest; sparsified vectors are independent.', RM + 'subspace comparison with independent SVDs')

prop('C20', 'Combinatorial tools return what their definitions say',
     'Sorting signs and permutation parities, comparisons and orderings, removal of duplicates, maximal cliques, connected components and simultaneous text replacement give exactly the result of their definition for every input, whatever its order or repetitions.',
     ['inputs'], 'all permutations, lists, graphs and texts',
     'Tests use one or two examples per tool.',
     ['qosy/tools.py'], [('sign-tracking sort', 'qosy/tools.py:sign,sort_sign,compare,argsort'), ('Bron-Kerbosch and label propagation', 'qosy/tools.py:maximal_cliques,connected_components'), ('replacement', 'qosy/tools.py:replace,swap,remove_duplicates,compose_permutations')],
     NOTE, RM + 'each result compared with a brute-force definition')

prop('C21', 'Selected-CI records are true, optimal in their own span, and respect the options',
     'Every operator recorded by the selected-CI searches is normalised, is reported with its true squared commutator norm with the Hamiltonian, and has the smallest such norm among the normalised operators spanned by its own strings that respect the requested orthogonality and symmetries; the best one is the smallest recorded. Sizes stay within the requested limits, and reusing exploration data, also from other searches or Hamiltonians, does not change this. From step to step a search keeps the largest terms above the threshold and extends them by terms of nested commutators with the Hamiltonian, the greedy ones taking the largest.',
     ['inputs', 'configurations', 'histories'], 'all Hamiltonians, initial operators, options and shared exploration data',
     'Tests run a single search on one model.',
     ['qosy/algorithms.py'], [('exploration cache and projected commutant matrix', 'qosy/algorithms.py:_explore,selected_ci'), ('greedy variants', 'qosy/algorithms.py:selected_ci_greedy,selected_ci_greedy_simple,selected_ci_simple')],
     NOTE + 'Real coefficients on at most 5 orbitals; 1e-5 relative, 1e-3 with penalties; failures of ARPACK are skipped, and so are infeasible constraints.',
     RM + 'every record re-solved on its own strings by an independent dense eigenproblem')

prop('C22', 'Printed, relabelled and plotted operators show exactly the operator',
     'Printing lists exactly the terms (of operators or vectors) above the tolerance, with correct coefficients and names, in the requested order and normalisation; relabelling replaces every orbital by its name in the lattice. Plots draw every term, atom and bond at the coordinates of its orbitals, and none of them modifies what it shows.',
     ['inputs', 'configurations'], 'all operators, vectors, lattices and options',
     'Tests only call print_operators and plot once without looking.',
     ['qosy/visualization.py', 'qosy/operatorstring.py', 'qosy/basis.py'], [('term selection and formatting', 'qosy/visualization.py:print_operators,print_vectors'), ('figures', 'qosy/visualization.py:plot,plot_opstring,plot_operator')],
     NOTE + 'Coordinates of drawn objects are read from a headless canvas; exact pixel layout and label placement are not decided.', RM + 'captured output read back and compared with the operator')

prop('C23', 'Calls never modify their arguments and are repeatable in any order',
     'No public call (other than the documented in-place ones) modifies any of its arguments, and modifying a result afterwards changes neither the arguments nor other results. Repeating a call, in any order with other calls, in a fresh process, with another hash seed or random state, gives the same result.',
     ['histories', 'schedules', 'inputs'], 'all sequences of public calls that share arguments',
     'Tests call each function once on fresh arguments and look at the result only.',
     ['qosy/basis.py', 'qosy/core.py', 'qosy/algebra.py', 'qosy/transformation.py', 'qosy/lattice.py', 'qosy/tools.py', 'qosy/conversion.py'],
     [('copies at the boundary of each function', 'qosy/basis.py:Operator,Basis'), ('caches', 'qosy/operatorstring.py')],
     NOTE + 'Excluded by documentation: an Operator built on a Basis keeps it by reference. Dense solvers only.', RM + 'deep fingerprints before and after every call; cross-process comparison of histories')

prop('C24', 'Symmetrized lattices have the symmetry, and nothing more than needed',
     'The lattice returned by symmetrizing a lattice under point-group generators is mapped to itself by the whole group, contains the original atoms with their orbitals, and nothing but images of them, without duplicates; it has the translations of the input (times the number of expansions). The input lattice is unchanged.',
     ['inputs', 'configurations'], 'all periodic lattices whose translations the point group preserves, and all generating sets',
     'Tests symmetrize one lattice.',
     ['qosy/symmetrization.py', 'qosy/lattice.py'], [('orbits of atoms under the group and expansion', 'qosy/symmetrization.py:symmetrize_lattice')],
     NOTE, RM + 'infinite crystal of the result compared with the group orbit of the input crystal')

prop('C25', 'Results do not depend on labels, order, units or representation',
     'Relabelling the orbitals, reordering strings, terms, symmetries or generators, changing units, stating the whole problem in Majorana instead of Pauli strings, choosing the other mode of the generator, or describing a lattice by another unit cell, origin, axes or order of atoms changes the result only as it must. This holds for commuting and symmetric operators, ladder operators, Lie algebras, symmetrized bases, spectra, free-fermion modes, distances, distance bases and space-group symmetries.',
     ['inputs', 'configurations'], 'all problems and all their restatements',
     'Tests state each problem once, on contiguous labels in ascending order.',
     ['qosy/core.py', 'qosy/algebra.py', 'qosy/symmetrization.py', 'qosy/diagonalization.py', 'qosy/lattice.py', 'qosy/transformation.py'],
     [('searches over a Basis', 'qosy/core.py:commuting_operators,invariant_operators,SymmetricOperatorGenerator,ladder_operators'), ('enumerations', 'qosy/algebra.py:generate_lie_algebra'), ('geometry', 'qosy/lattice.py:Lattice')],
     NOTE + 'Compares two executions of the real code, translated by the independent algebra; an error that is the same in both statements is left to the other properties.',
     RM + 'metamorphic comparison of two executions of restated problems')

prop('C26', 'Unsupported calls are refused, and a refused call changes nothing',
     'A call that a function does not support (operators of different types, wrong kinds of objects, unknown names, modes, types or formats, inconsistent sizes, labels out of range, non-quadratic Hamiltonians in single-particle solvers, transformations that do not fit the lattice or the states) raises an error instead of returning a result. It leaves all arguments, also those of in-place operations, as they were, and does not affect later calls. Dropping an imaginary part that a call cannot treat is announced by a warning.',
     ['inputs', 'histories'], 'all functions that restrict their inputs, on random valid and invalid data, in any order',
     'Tests check two or three errors.',
     ['qosy/basis.py', 'qosy/algebra.py', 'qosy/core.py', 'qosy/conversion.py', 'qosy/transformation.py', 'qosy/diagonalization.py', 'qosy/operatorstring.py', 'qosy/visualization.py'],
     [('argument checks', 'qosy/basis.py:Basis,Operator'), ('types of strings', 'qosy/algebra.py:product,commutator'), ('quadratic terms', 'qosy/diagonalization.py:diagonalize_quadratic,diagonalize_quadratic_tightbinding,diagonalize_bdg')],
     NOTE + 'Only the restrictions that the library enforces; it does not check everything (see DESIGN.md).',
     RM + 'refusal and deep fingerprints of all arguments around failing calls, histories with refused calls in between')
