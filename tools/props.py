FE = ['anifem++/fem/operators.h', 'anifem++/fem/operators.inl', 'anifem++/fem/spaces', 'anifem++/fem/fem_space.h', 'anifem++/fem/fem_space.cpp', 'anifem++/fem/operations/core.inl', 'anifem++/fem/operations/eval.inl']
DOM = 'Decided for all real inputs of non-degenerate elements (identities of rational functions, floating-point rounding excluded), for the listed spaces and small numbers of points and fused elements; loop trip counts are those of the instantiations.'

prop('Q01', 'Quadrature rules integrate every polynomial up to their order exactly',
     'For every supported order and each shape (segment, triangle, tetrahedron) the rule handed to the user integrates every polynomial of total degree up to that order exactly over the shape, up to double rounding of the stored constants. This holds both through the point/weight accessor and through the raw data arrays.',
     ['inputs', 'configurations'], 'every order the lookup accepts, every monomial up to that order, all three shapes',
     'Tests integrate a few chosen functions with a few orders; a slightly wrong constant in a rarely used rule stays within their tolerances.',
     ['anifem++/fem/quadrature_formulas.h', 'anifem++/fem/quadrature_formulas.cpp'], [('rule tables and lookup by order', 'quadrature_formulas.cpp'), ('point/weight accessor', 'quadrature_formulas.h')],
     'python3 checks/q01.py Q01', 'constant propagation of the rule tables through the lookup in compiler IR, exact moment arithmetic on the folded constants',
     'Complete for the supported orders: every rule, every monomial; tolerance 5e-14.')
prop('Q02', 'Quadrature rules are well-formed, symmetric and rejected when unsupported',
     'Every rule has points strictly inside the shape whose barycentric coordinates sum to one, consists of full vertex-permutation orbits with equal weights exactly as its reported symmetry partition says, and its accessors agree. The lookup returns a rule for every supported order and raises an error for any other order.',
     ['inputs', 'configurations'], 'every supported order of each shape, and orders outside the supported range',
     'Tests look at few orders and never compare the accessors, the orbit structure or the error path for all orders.',
     ['anifem++/fem/quadrature_formulas.h', 'anifem++/fem/quadrature_formulas.cpp'], [('rule tables and lookup by order', 'quadrature_formulas.cpp'), ('symmetry partition', 'quadrature_formulas.h')],
     'python3 checks/q01.py Q02', 'constant propagation of the rule tables through the lookup in compiler IR, structural comparison of the folded constants',
     'Complete for the supported orders plus the neighbouring unsupported ones.')
prop('B01', 'Differential operators return the exact derivatives of the values',
     'For every finite-element space and every coefficient vector, the gradient, the partial derivatives, the divergence and the curl evaluated by the library equal the exact spatial derivatives of the function its value evaluation describes, on every non-degenerate element and at every point. This holds through the template and the run-time interface alike.',
     ['inputs', 'programs'], 'all vertex coordinates, evaluation points and coefficients; all elementary spaces and a family of composite ones',
     'Tests compare a few operators at a few points of one or two elements; the statement is an identity over all geometry, points and coefficients.',
     FE, [('value and derivative operators of each space', 'anifem++/fem/spaces/*.h'), ('divergence and curl of composites', 'fem_space.cpp, operators.h')],
     'python3 checks/fem1.py B01', AVN, DOM)
prop('B02', 'Interpolating a space onto its degrees of freedom is the identity',
     'For every space the value stored for a degree of freedom by interpolation is one on its own basis function and zero on every other basis function of the same space, so interpolating a function that belongs to the space reproduces its coefficients. Interpolation evaluates the function only inside the element, asks for the announced number of components, writes only the addressed coefficient and stays inside the announced workspace.',
     ['inputs', 'programs'], 'all non-degenerate elements, every degree of freedom of every space, template and run-time interface',
     'Tests interpolate selected polynomials on one tetrahedron; duality on every element and for every pair of functions is not sampled.',
     FE, [('interpolation on a degree of freedom', 'anifem++/fem/spaces/*.h, operators.h, fem_space.cpp')],
     'python3 checks/dof.py', AVN, DOM + ' The interpolated function is opaque: the functional is read off as weights on evaluation points and paired with the library\'s own basis.')
prop('B03', 'Template and run-time interfaces compute the same values',
     'For the same space and operator the compile-time and the run-time interface report the same numbers of basis functions and components and evaluate to identical values for every element, point and coefficient vector.',
     ['inputs', 'programs', 'configurations'], 'all inputs; every space and operator expressible in both interfaces',
     'The two interfaces are separate code for composites; tests compare them on a handful of spaces and one element.',
     FE, [('run-time spaces', 'fem_space.cpp'), ('template spaces', 'operators.h')], 'python3 checks/fem1.py B03', AVN, DOM)
prop('B04', 'Composite spaces are exactly the combination of their parts',
     'A vector or complex space evaluates to the parts stacked in order, each with its own contiguous block of coefficients, for values and all derivatives; a union space is spanned by the functions of its parts. Nothing is mixed between parts, whatever the nesting.',
     ['inputs', 'programs'], 'all inputs; nested vector, complex and union spaces',
     'Tests instantiate a few composites and compare few numbers.',
     FE, [('composites in the template interface', 'operators.h, operators.inl'), ('composites in the run-time interface', 'fem_space.cpp')], 'python3 checks/fem1.py B04', AVN, DOM)
prop('B05', 'Reported polynomial orders bound the evaluated functions',
     'The polynomial order reported for a space under an operator is never below the true polynomial degree of the evaluated functions, and for plain values equals the order of the space; users choose quadrature from it.',
     ['inputs', 'programs'], 'every space and operator in both interfaces',
     'No test compares the reported order with the actual degree.',
     FE, [('reported orders', 'anifem++/fem/spaces/*.h, operators.inl, fem_space.h')], 'python3 checks/fem1.py B05', AVN + '; degrees read off the value', DOM)
prop('B06', 'Fused and multi-point evaluation equals one element, one point at a time',
     'Evaluating several elements and several points in one call gives for each element and point exactly what a call with that element and point alone gives; no value leaks between elements, points or coefficient vectors, and every output entry is written.',
     ['inputs', 'programs', 'configurations'], 'all inputs; fused calls with several elements and points, every space and operator',
     'Tests mostly use one fusion number and compare few entries.',
     FE, [('fused products and part loops', 'operations/core.inl'), ('per-element loops of the spaces', 'anifem++/fem/spaces/*.h')], 'python3 checks/fem1.py B06', AVN, DOM)
prop('M01', 'Evaluation stays inside the workspace it announces',
     'For every space, operator, number of points and number of fused elements, an evaluation given exactly the announced workspace touches nothing outside it, writes only its result, does not modify its inputs and does not depend on what the workspace or the result contained before.',
     ['inputs', 'configurations'], 'all inputs; every space and operator, several numbers of points and fused elements, both interfaces',
     'Tests over-allocate or use one size; an overrun by a few numbers in a composite space is silent.',
     FE + ['anifem++/fem/fem_memory.h'], [('workspace requirement and its partition', 'operations/core.inl, operations/eval.inl')], 'python3 checks/fem1.py M01', AVN + '; memory footprint of every access', DOM)
prop('M02', 'Evaluation keeps no hidden mutable state',
     'Evaluating an operator of any space writes no global or static storage, so concurrent evaluations with separate workspaces cannot influence each other and results never depend on earlier calls.',
     ['schedules', 'histories', 'inputs'], 'every space and operator in both interfaces, any number of threads and any call history',
     'Tests are single-threaded and never interleave or repeat calls to look for history dependence.',
     FE, [('static tables', 'anifem++/fem/spaces/*.h'), ('evaluation kernels', 'operations/core.inl')], 'python3 checks/fem1.py M02', AVN + '; write effects on static storage', DOM)

OPS = ['anifem++/fem/operations', 'anifem++/fem/diff_tensor.h', 'anifem++/fem/geometry.h', 'anifem++/fem/fem_space.cpp']
prop('I01', 'Volume assembly is the exact quadrature sum of operators and tensor',
     'The element matrix of a bilinear form over a tetrahedron equals, entry by entry, the sum over quadrature points of weight times element volume times test operator times user tensor times trial operator, with the documented row and column layout for every pair of spaces and operators. The memory-less, the external-memory and the run-time interface all return this matrix, for one and for several fused elements.',
     ['inputs', 'programs', 'configurations'], 'all vertex coordinates and tensor values; operator pairs over elementary, vector, complex and union spaces; all interfaces',
     'Tests compare a few bilinear forms on one tetrahedron; block layouts of composite trial and test spaces and fused elements are hardly sampled.',
     OPS, [('assembly of the element matrix', 'operations/core.inl'), ('tensor application', 'diff_tensor.h'), ('interfaces', 'operations/int_tet.inl, dyn_ops.inl')], 'python3 checks/asm.py I01', AVN + '; matrix entries compared with the symbolic sum over an opaque tensor', DOM)
prop('I02', 'Face, normal, edge, node and point integrals integrate over exactly that entity',
     'Integrals over a face, over a face with the outward unit normal, over an edge, at a node and over user-given points return the corresponding weighted sum at exactly the points of the addressed entity, scaled by its true area or length; the normal points out of the element for either vertex orientation and every numbering of faces, edges and nodes follows the reference tables.',
     ['inputs', 'programs', 'configurations'], 'all vertex coordinates including both orientations, every face, edge and node number, all interfaces',
     'Tests use one or two faces of one element, never all numbers in all interfaces and orientations.',
     OPS, [('face integrals', 'operations/int_face.inl'), ('edge integrals', 'operations/int_edge.inl'), ('node and point integrals', 'operations/int_pnt.inl')], 'python3 checks/asm.py I02', AVN + '; matrix entries compared with the symbolic sum over an opaque tensor', DOM)
prop('I03', 'The declared kind of a tensor only changes speed, never the integral',
     'Whichever kind (null, scalar, symmetric, general) and granularity (constant, per point, per element, per selection, fixed, fused) a tensor is declared with, assembly gives the same integral for the same tensor values. The tensor is evaluated only at quadrature points of the elements, is told the matching element number and matrix dimensions, and its value at one point is never used at another unless it was declared constant.',
     ['inputs', 'configurations', 'programs'], 'all tensor values and vertex coordinates; every declared kind and granularity; all interfaces',
     'The kinds are separate hand-written branches; tests exercise few of them and mostly with constant tensors.',
     OPS, [('branches of the tensor application', 'diff_tensor.h')], 'python3 checks/asm.py I03', AVN + '; opaque tensor that records where it is asked', DOM)
prop('M03', 'Assembly stays inside the workspace it announces',
     'An integration call given exactly the announced workspace touches nothing outside it, writes only the element matrix, fills every entry, never depends on what the workspace or the matrix contained before, does not modify its inputs and writes no static storage.',
     ['inputs', 'configurations', 'schedules'], 'operator pairs, tensor kinds, entities and numbers of fused elements in both external-memory interfaces; all inputs',
     'Tests give generous or fresh memory; an undersized requirement or a stale read is silent.',
     OPS + ['anifem++/fem/fem_memory.h'], [('workspace requirement and partition', 'operations/core.inl'), ('memory of the run-time interface', 'operations/dyn_ops.inl')], 'python3 checks/asm.py M03', AVN + '; memory footprint of every access', DOM)

AD = ['anifem++/autodiff']
prop('A01', 'Automatic differentiation obeys the chain rule to second order',
     'For operands of any kind (full, first-derivative only, variable, parameter, plain number) with arbitrary value, gradient and Hessian, every arithmetic operation, elementary function, power, minimum, maximum, absolute value, comparison and their compositions return the mathematically exact value, gradient and Hessian, in every storage (arrays, symmetric and general matrices) and at every requested differentiation order.',
     ['inputs', 'programs', 'configurations'], 'all operand values and derivatives inside the domain of the function; every operand kind, storage and order',
     'Tests compare a few functions at a few points; the operand kinds are separate compile-time branches and second derivatives of mixed kinds are hardly sampled.',
     AD, [('operations and chain rule', 'autodiff/autodiff.inl'), ('functions', 'autodiff/autodiff.h')], 'python3 checks/ad.py A01', AVN + '; operands with opaque value and derivatives, elementary functions normalised to exp/log/half-angle atoms', DOM)
prop('E01', 'Strain invariants and stress transformations match their definitions',
     'For every strain tensor, fibre directions, deformation gradient and stress, the invariants I0fs, I1, I2, I3, J, I4fs, I5fs of C = I + 2E equal their definitions; their first and second derivatives equal the derivatives with respect to the symmetric strain; the differentiable invariant objects return the same; strain, strain increment, first Piola stress and its derivative follow from deformation gradient, second Piola stress and its derivative by the documented formulas.',
     ['inputs'], 'all strains, directions, gradients and stresses',
     'Tests evaluate at one strain; a wrong off-diagonal factor in one of 81 components needs a particular deformation to show.',
     AD, [('invariants', 'autodiff/cauchy_strain_invariants.inl'), ('differentiable invariants', 'autodiff/cauchy_strain_autodiff.h')], 'python3 checks/tens.py E01', AVN + '; compared with symbolic differentiation of the definitions', DOM)
prop('E02', 'Physical tensor algebra is exact for every size, symmetry and storage',
     'For arrays, symmetric, general, fourth-rank, symmetric fourth-rank and bisymmetric tensors of dimension 2, 3 and more, components are stored where documented, index maps and iterators enumerate each stored value once with its multiplicity, and sums, scalings, products, contractions, norms, traces, tensor squares, symmetrised products, identities, transposition, symmetrisation and conversions give, component by component, the expression they name; for dimension 3 also determinant, adjugate and inverse.',
     ['inputs', 'programs'], 'all component values; dimension 2 to 4; generic code and the three-dimensional specialisations',
     'Generic and specialised versions are separate code and tests touch only dimension 3 through other operations.',
     AD, [('generic tensors', 'autodiff/physical_tensors.inl'), ('three-dimensional tensors', 'autodiff/physical_tensors_3d.inl')], 'python3 checks/tens.py E02', AVN + '; every component compared', DOM)

MAP = ['anifem++/fem/tetdofmap.h', 'anifem++/fem/tetdofmap.inl', 'anifem++/fem/tetdofmap.cpp']
prop('F01', 'Local numbering of degrees of freedom is the documented bijection',
     'For every map of degrees of freedom built from elementary, vector and complex maps, with any numbers of degrees per node, edge, face and cell, any vector length and any symmetry groups, the index on the tetrahedron of a degree at a place (element, index on element) is the documented one, the inverse query returns exactly that place, type and symmetry, counts and offsets agree with it, and building the same map by constructors, products, powers or run-time composition gives the same numbering.',
     ['inputs', 'programs', 'configurations'], 'all numbers of degrees, vector lengths and positions; nested shapes of maps in the template and run-time interface',
     'Tests use the small counts of the shipped spaces; offsets coincide there that differ in general.',
     MAP, [('numbering of elementary, vector and complex maps', 'tetdofmap.inl, tetdofmap.cpp'), ('products and powers', 'tetdofmap.cpp')], 'python3 checks/dofmap.py F01', AVN + '; counts and positions are non-negative integer symbols', DOM)
prop('F02', 'Iterating over parts of the tetrahedron visits each of their dofs once',
     'For every map and every selection of nodes, edges, faces and cell, iteration visits every degree of freedom lying on the selected elements exactly once and no other, reports the right place for each, ends, and visits elements one after another when that order is asked for. Selections obey the laws of sets: union, difference, complement, closure, membership and emptiness.',
     ['inputs', 'programs', 'histories'], 'all numbers of degrees and positions; map shapes and selections enumerated; iteration by induction over single increments',
     'Boundary conditions rest on this iteration; tests iterate a few shipped spaces over few selections.',
     MAP, [('iteration by selection', 'BeginByGeomSparsity, IncrementByGeomSparsity'), ('selections', 'TetGeomSparsity')], 'python3 checks/dofmap.py F02', AVN + '; every single step of the iteration from every state is decided with symbolic counts', DOM)
prop('F03', 'Parts of a map keep the numbering of the whole',
     'A part of a composite map, taken as owning or non-owning view by any chain of component numbers, has the counts of that component, its shift and its index queries place each degree exactly where the whole map places the degree of that component, its iteration visits the degrees of the component with their numbers in the whole, and component queries return the chain of components a degree belongs to.',
     ['inputs', 'programs'], 'all numbers of degrees, vector lengths and positions; nested shapes and chains of components',
     'Tests look at one or two parts of shipped spaces.',
     MAP, [('nested maps and views', 'NestedDofMap, NestedDofMapView'), ('components', 'ComponentID, GetNestedComponent')], 'python3 checks/dofmap.py F03', AVN + '; counts and positions are non-negative integer symbols', DOM)
prop('F04', 'Boundary conditions leave exactly the eliminated linear system',
     'Prescribing values at chosen degrees of freedom, one by one, by a selection of parts of the tetrahedron or along directions of a vector unknown, subtracts the known contribution from the right-hand side, clears exactly the chosen rows and columns, puts the identity (or the directions) there and the prescribed values on the right-hand side; residual and non-existing variants clear the same entries. No other entry changes, for square and rectangular matrices and different trial and test maps, and work memory of the documented size suffices.',
     ['inputs', 'programs', 'configurations'], 'all matrix, right-hand side, boundary values and orthogonal directions; sizes, selections and map pairs enumerated',
     'Tests cover one vector condition at a time and equal trial and test maps.',
     ['anifem++/fem/operations/dc_on_dof.h', 'anifem++/fem/operations/dc_on_dof.inl', 'anifem++/fem/tetdofmap.inl'], [('one degree and vector conditions', 'operations/dc_on_dof.inl'), ('conditions by selection', 'tetdofmap.inl')], 'python3 checks/dirichlet.py', AVN + '; matrix, vectors and directions are symbols', DOM)
prop('F05', 'Renumbering the nodes moves every dof to its documented place',
     'When the nodes of a tetrahedron are renumbered, every degree of freedom of a symmetry group moves to the position the documentation of the groups assigns, for all 24 renumberings, all elements and groups; the permutation of all degrees of a map is the signed permutation matrix of these moves, orientation reverses the sign of oriented degrees, and edge, face, stabilizer and identity tables agree with the reference tetrahedron.',
     ['inputs', 'configurations'], 'all node renumberings, elements, groups and positions; maps with every symmetry group',
     'Neighbouring elements see shared degrees in different orders; tests try few of the orders.',
     MAP, [('positions under renumbering', 'DofSymmetries::index_on_reorderd_elem'), ('permutation of a map', 'S4::build_dof_permutation')], 'python3 checks/dofmap.py F05', AVN + '; every table entry compared with the group action derived from the documented patterns', DOM)

prop('G01', 'Geometric quantities of a tetrahedron are exact and normals point outward',
     'Vector products, face areas, 3x3 inverses with determinants, barycentric coordinates, centroid, diameter and the vertex views of a tetrahedron equal their defining expressions for every vertex position; face normals are orthogonal to their face, of unit length where promised, and point away from the opposite vertex for both orientations of the tetrahedron.',
     ['inputs'], 'all vertex coordinates and points; every case of the longest edge and of the orientation',
     'Tests use one or two tetrahedra, mostly of one orientation.',
     ['anifem++/fem/geometry.h', 'anifem++/fem/operations/core.inl'], [('primitives and Tetra', 'geometry.h'), ('barycentric coordinates', 'getBaryCoord in operations/core.inl')], 'python3 checks/geom.py G01', AVN + '; comparisons resolved per case', DOM)
prop('G02', 'Dense solvers satisfy the equations that define their results',
     'For every symmetric positive definite matrix the Cholesky routines, and for every invertible matrix the fully pivoted LU routines, return X with A X = B (and the inverse), also when operands coincide as documented; pivots are the largest entries, a singular matrix keeps the decomposition inside its arrays, an indefinite one is rejected; Householder QR returns orthogonal Q and upper triangular R with Q R = A, also for rank-deficient columns.',
     ['inputs'], 'all matrices of size up to 4 in every explored order of pivots, several right-hand sides, aliased operands',
     'Tests solve a few well-conditioned systems, mostly through Eigen.',
     ['anifem++/fem/geometry.h'], [('Cholesky', 'cholesky_solve, cholesky_inverse'), ('LU', 'fullPivLU, LU_solve, fullPivLU_inverse'), ('QR', 'householderQR')], 'python3 checks/geom.py G02', AVN + '; one symbolic run per order of pivots', 'Build without Eigen. LU symbolic in all entries for each pivot order (all orders up to 3x3, sampled orders of 4x4); QR for orthogonal frames times symbolic (4x4: numeric) triangular factors. Rounding is outside.')
prop('I04', 'Values at points equal the operator of the function times the tensor',
     'Evaluating an operator of a discrete function at points given by barycentric or by Cartesian coordinates returns, point by point and element by element, the operator applied to the function at exactly that point, multiplied from the left by the user tensor when one is given (of any kind, granularity and number of rows); memory-less, external-memory, single-point, pointer and run-time interfaces agree, announced workspace suffices and inputs stay unchanged.',
     ['inputs', 'programs', 'configurations'], 'all elements, points, coefficients and tensor values; spaces, operators, tensor kinds and interfaces enumerated',
     'Tests evaluate a few spaces at few points and hardly touch the variants with a tensor.',
     ['anifem++/fem/operations/eval.h', 'anifem++/fem/operations/eval.inl', 'anifem++/fem/operations/core.inl', 'anifem++/fem/diff_tensor.h'], [('evaluation at points', 'operations/eval.h, operations/eval.inl'), ('tensor times value', 'internalFem3DApply in operations/core.inl')],
     'python3 checks/apply.py', AVN + '; the tensor is an uninterpreted function of the point', DOM)

prop('P01', 'Interpolation sets exactly the chosen dofs to their documented values',
     'Interpolating a function or a constant on a selection of nodes, edges, faces and cell writes exactly the degrees of freedom lying on the selection (of the whole variable or of a chosen component), each to the value its own functional gives, and leaves every other one untouched. Interpolation over a region solves the projection equations formed with the quadrature of that region for exactly the degrees of freedom on the closed region. Both interfaces stay inside the announced workspace and pass the user data on.',
     ['inputs', 'programs', 'configurations'], 'all interpolated functions and all elements; spaces, selections, regions and interfaces enumerated',
     'Tests interpolate on the whole element for a few spaces; the region variant of the template interface was not even compiled by any test.',
     ['anifem++/fem/operations/interpolate.h', 'anifem++/fem/operations/interpolate.inl', 'anifem++/fem/fem_space.cpp', 'anifem++/fem/fem_space.inl', 'anifem++/fem/operators.inl'], [('by selection and by region', 'operations/interpolate.inl, fem_space.cpp, fem_space.inl')],
     'python3 checks/interp.py', AVN + '; the interpolated function is an uninterpreted function of the point; the projection system is read at the solver call', DOM)

prop('S01', 'Spaces written with composition operators are the composition they denote',
     'A space written with products, unions and powers of run-time spaces or with the corresponding functions, or taken as copy or part of another, has the degrees of freedom, their places, the functionals, the operator values, the attributes and the kind of the composition the expression denotes, nested products and unions being joined exactly where documented. Two spaces compare equal exactly when they are the same composition, owned and viewed operators of them likewise.',
     ['inputs', 'programs', 'configurations'], 'all elements, coefficients and functions; expressions of spaces and pairs to compare enumerated',
     'Tests compose a handful of spaces and look at sizes; a wrong order of joined parts shows only in values and places.',
     ['anifem++/fem/fem_space.h', 'anifem++/fem/fem_space.inl', 'anifem++/fem/fem_space.cpp'], [('composition', 'operator*, operator+, operator^, make_complex_*, make_union_* in fem_space.cpp'), ('comparison', 'BaseFemSpace::operator== and its overrides')],
     'python3 checks/compose.py', AVN + '; compared with the composition built from explicit constructors and templates', DOM)
prop('S02', 'Symbolic basis functions are the basis functions of the element',
     'The symbolic basis functions a space produces from symbolic barycentric coordinates and their gradients are, for every element and every point, the basis functions the numeric operators use, in the same order and with the same scaling, for template elements, run-time spaces and compositions (each degree of freedom with the function of its own component).',
     ['inputs', 'programs'], 'all non-degenerate elements of both orientations and all points; spaces enumerated',
     'No test evaluates the symbolic functions of the vector elements.',
     ['anifem++/fem/spaces/poly_0.h', 'anifem++/fem/spaces/poly_1.h', 'anifem++/fem/spaces/poly_2.h', 'anifem++/fem/spaces/poly_3.h', 'anifem++/fem/spaces/nedelec_0.h', 'anifem++/fem/spaces/raviant_thomas_0.h', 'anifem++/fem/spaces/crouzeix_raviart_1.h', 'anifem++/fem/spaces/bubble_2.h', 'anifem++/fem/spaces/bubble_4.h', 'anifem++/fem/fem_space.cpp'], [('symbolic functions', 'Basis<> in spaces/*.h, evalBasisFunctions in fem_space.h and fem_space.cpp')],
     'python3 checks/symb.py S02', AVN + '; the symbolic expressions are interpreted by a plain implementation of the expression primitives and compared with the analysed operator table', DOM)
prop('S03', 'The coordinate reported for a dof is the point its functional acts at',
     'For every Lagrange-type element and every composition of them the coordinate reported for a degree of freedom is the point (node, point of the edge, centre of face or cell) at which the interpolation functional of exactly that degree acts: it writes the three coordinates, depends on nothing but the vertices, and follows the numbering of the composition.',
     ['inputs', 'programs'], 'all vertex positions; elements, compositions and degrees enumerated',
     'Examples set boundary values through these coordinates; one test uses one space.',
     ['anifem++/fem/operators.h'], [('coordinates of degrees of freedom', 'DOF_coord in operators.h')],
     'python3 checks/symb.py S03', AVN + '; compared with the first moments of the interpolation functional of the same degree', DOM)
prop('E03', 'The expression interface applies the named operation to its operands in order',
     'Every operator and function of symbolic expressions applies, entry by entry, the operation it is named after to its operands in their order, with numbers in any operand position; entries, rows, columns, blocks, concatenations and products have the right shape and content; copies are independent values; requests outside the matrix, empty ranges and uninitialised operands are refused.',
     ['inputs', 'programs'], 'all operand values; operations, operand positions and shapes enumerated',
     'Tests do not touch the interface unless CasADi is installed.',
     ['anifem++/fem/expr_interface.h', 'anifem++/fem/expr_interface.inl'], [('operators and functions', 'expr_interface.inl'), ('values', 'Expr in expr_interface.h')],
     'python3 checks/symb.py E03', AVN + '; the operation is compared with its definition on plain numbers', 'Real arithmetic; the caller supplies a type implementing the primitives of BaseExpr by their names.')

prop('W01', 'Work memory is carved into disjoint aligned arrays of the announced size',
     'For every layout of work memory and all sizes, the amount of raw memory a layout announces is enough from any start address, and laying it out in raw memory gives every array its announced length inside the memory, at its alignment, disjoint from every other array; what is reported as left over is what is left; memory that is too small is refused. Sizes reported for owned memory cover what is handed out.',
     ['inputs', 'configurations'], 'all sizes, capacities and start addresses; layouts and entry points enumerated',
     'Tests use ample memory, so a wrong padding or a wrong size of one array stays unnoticed.',
     ['anifem++/fem/fem_memory.h'], [('layouts', 'PlainMemory, PlainMemoryX, MemoryLegacy, AniMemory, AniMemoryX, DynMem in fem_memory.h')],
     'python3 checks/mem.py W01', AVN.split(';')[0] + '; sizes are non-negative integer symbols, undecided comparisons split the path and are kept as linear inequalities', 'Decided for all sizes, capacities and alignments of the start address by linear arithmetic on every path.')
prop('W02', 'Memory handed out by a pool belongs to its holder alone until released',
     'Whatever the order of requests, releases, moves, copies, clears and defragmentations, each piece of memory obtained from a pool has the requested size and alignment, lies inside storage the pool owns, overlaps no piece still held, and stays valid until it is released; released memory is available again, and clearing releases all storage exactly once. The adaptors over external memory obey the same contract.',
     ['histories', 'inputs'], 'all sizes; histories of requests and releases up to a fixed length, in every order',
     'Tests allocate and release in one order only.',
     ['anifem++/fem/fem_memory.h'], [('pool', 'DynMem, DynMemT in fem_memory.h')],
     'python3 checks/mem.py W02', AVN.split(';')[0] + '; sizes are non-negative integer symbols, undecided comparisons split the path and are kept as linear inequalities', 'Complete in the sizes; histories are enumerated up to the length in the evidence; exceptions of operator new are not followed.')
prop('W03', 'Parallel loops cover their range once and thread pools are exclusive',
     'A parallel loop calls its body exactly once for every element of its range, with the index of a thread below the announced number and never twice at the same time for one thread index, and returns only after every call has ended, for any range, number of threads and batch size. A memory pool shared by threads gives every holder a pool nobody else holds, and touches its shared table only while it holds its lock.',
     ['schedules', 'inputs', 'configurations'], 'ranges, numbers of threads and schedules enumerated; all calls of the shared pool',
     'No test uses more than one thread.',
     ['anifem++/fem/mutex_type.h', 'anifem++/fem/fem_memory_parallel.h'], [('loops', 'parallel_for in mutex_type.h'), ('shared pool', 'DynMemParallel in fem_memory_parallel.h')],
     'python3 checks/par.py W03', AVN.split(';')[0] + '; threads are objects whose body runs at the moment of start, at the first join in reverse, or at their own join; lock-set rule for the shared table', 'Serial and std::thread variants; OpenMP variant not analysed. Three extreme schedules per loop; ranges up to the length in the evidence.')
POLY = AVN.split(';')[0] + '; keys, numbers and lengths are integer symbols, undecided comparisons split the path and are kept as linear inequalities over the integers'
prop('V01', 'Numbers and values stored by intervals correspond one to one in order',
     'A sequence stored by intervals behaves as the increasing list of all values of its intervals: size and emptiness, the value of a number, the number of a value, membership, lower and upper bounds (a number or a value that is not there yields the end or the next one), and iterators that step, jump, compare and subtract by the difference of their numbers, across gaps and across intervals of any length, in owned and in external memory.',
     ['inputs', 'configurations'], 'all starts, lengths and gaps; numbers of intervals up to a bound; both memories',
     'Tests use one or two lists of fixed intervals.',
     ['anifem++/interval/interval_enum.h', 'anifem++/interval/interval_enum.inl'], [('sequence', 'interval_enum, interval_own_memory, interval_external_memory in interval_enum.h/.inl')],
     'python3 checks/ival.py V01', POLY, 'Complete in starts and gaps, lengths partly fixed for jumps; numbers of intervals up to the bound in the evidence.')
prop('V02', 'Numbers of extended arrays are their places in lexicographic order',
     'For any set of base arrays extended by one inserted number, whose values are a range or a set depending on one of the base numbers and never empty, the number of an extended array is its place in the lexicographic order of all of them: size, number of an array and array of a number, membership, search, lower and upper bound, and iterators from any position forwards and backwards, with jumps and comparisons, all agree with that order.',
     ['inputs', 'configurations'], 'all range lengths and value positions; base sets, insertion and dependence positions enumerated',
     'Tests walk forward from the first element over one pattern of ranges.',
     ['anifem++/interval/ext_array_enum.h', 'anifem++/interval/ext_array_enum.inl'], [('extended arrays', 'ext_range_array_enum, ext_array_enum in ext_array_enum.h/.inl')],
     'python3 checks/ival.py V02', POLY, 'Base arrays of two and three numbers below 2, sets enumerated; ranges of symbolic length; sets of values with symbolic starts and fixed lengths.')
prop('V03', 'A map of intervals is the function inserted, in canonical form',
     'After any insertion, finite or infinite on either side, the map holds exactly the function of keys described by the accepted insertions, as disjoint ordered intervals with neighbours of equal value joined; an insertion that contradicts the map changes nothing and reports the conflict; look-up, membership, at, iteration, swap, clear and copies agree with that function, for any order of keys.',
     ['inputs', 'histories', 'configurations'], 'all keys; sequences of insertions enumerated up to a length; both orders of keys',
     'Tests insert a few fixed intervals with one order of keys.',
     ['anifem++/interval/interval_map.h', 'anifem++/interval/interval_map.inl'], [('map', 'interval_map in interval_map.h/.inl')],
     'python3 checks/ival.py V03', POLY, 'Complete in the keys; maps of up to the number of intervals in the evidence; parsing of maps from text is not covered.')
