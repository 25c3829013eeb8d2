#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the entries stay uniform)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=hook)))
D='src/fem_domain/domain/'
M=D+'mesh.rs'
L='src/fem_problem/linalg/'
p('C01','Mesh files are imported faithfully, and malformed ones are rejected',
  'Loading a mesh file yields exactly one unrefined order-1 cell per listed element with its four corner points and its material values, one node per listed point and one edge per distinct cell side, where an edge is a boundary edge exactly when only one cell touches it and a node is interior exactly when four cells meet there. A file that is missing, is not valid JSON or violates the format (wrong counts or types, unknown node ids, more than four cells at a node, two cells on the same side of an edge) is reported as an error or panic and never yields a mesh.',
  ['inputs'],'every well-formed rectangular mesh file (any number and arrangement of cells, materials and node numbering) and every malformed variant of one',
  'The tests load three fixed files and check counts for one of them; arrangements such as L-shapes, holes, permuted node ids or distinct materials are never loaded.',
  [M],[('Mesh::from_file','%s:from_file'%M),('parse_element_information / parse_node_information','%s (bottom)'%M)],
  observe=['Mesh::from_file','Mesh.elements/elems/nodes/edges','Edge::to_json','Node::to_json'])
p('C02','h-refinement children tile their parent exactly and know their lineage',
  'After any h-refinement the 4 (T), 2 (U) or 2 (V) children of a cell partition it exactly along its midlines, appear in the documented positions with the documented corner and side ordering, and share its material. Parent, children, ancestor stack, refinement levels, absolute and relative parametric ranges all agree with each other and with the real coordinates, and a refined cell itself keeps its geometry, its corners and its sides.',
  ['histories','inputs'],'every sequence of T/U/V and extended refinements on any cells of any rectangular mesh, to any depth the length limit allows',
  'Tests check element counts and a few parametric ranges after one or two refinements of one cell.',
  [M,D+'mesh/elem.rs',D+'mesh/h_refinement.rs'],[('execute_{t,u,v}_refinement',M),('HRefLoc::sub_range',D+'mesh/h_refinement.rs'),('Elem::h_refine / ElemUninit',D+'mesh/elem.rs')],
  observe=['Mesh::elem_points','Elem::parametric_range','Elem::relative_parametric_range','Elem::loc_stack','Elem::child_ids'])
p('C03','Neighbouring cells share one node per location and one edge per segment',
  'At every moment each corner location in the mesh is represented by exactly one node and each cell side by exactly one edge, no matter in which order neighbours were refined, and split edges have exactly two halves meeting at one midpoint node. The cell-to-edge, edge-to-cell, cell-to-node and node-to-cell relations are mutually consistent (each edge and node lists exactly the cells, on the correct side or corner, that use it) and boundary marks are inherited by the halves of boundary edges only.',
  ['histories','inputs'],'every reachable mesh: all refinement histories over single- and multi-cell base meshes',
  'Sharing only goes wrong for particular orders of refinement of neighbouring or nested cells; tests refine at most two neighbours in one order and never look at the adjacency lists.',
  [M,D+'mesh/edge.rs',D+'mesh/node.rs'],[('h_refine_edge_if_needed / new_edge_between_nodes',M),('Edge::connect_elem, Edge::h_refine',D+'mesh/edge.rs'),('Node::connect_elem',D+'mesh/node.rs')],
  state=[('Edge.elems','cells on each side keyed by refinement level',D+'mesh/edge.rs'),('Node.elems','cells in each quadrant',D+'mesh/node.rs')],
  observe=['Edge::to_json','Node::to_json','Mesh.edges','Mesh.nodes'])
p('C04','A rejected h-refinement request changes nothing',
  'A request to h-refine that names a missing cell, an already refined cell, a duplicate id (list form), an invalid child index of an extended refinement, or any cell whose refinement would create an edge below the minimum edge length fails as a whole: an error is returned (the closure and global forms, which return nothing, panic) and the mesh is left exactly as it was. A request in which every item is admissible succeeds, and the eligibility query answers true exactly for unrefined cells all of whose sides are longer than the minimum.',
  ['inputs','histories'],'every batch of valid and invalid items in any order and position, on meshes at any distance from the minimum edge length',
  'Tests check that some bad requests return Err; none inspects the mesh after the failure, and the length limit is only reached once, through a panic.',
  [M,D+'mesh/edge.rs'],[('Mesh::execute_h_refinements validation loop',M),('Mesh::elem_is_h_refineable',M),('Edge::h_refine length check',D+'mesh/edge.rs')],
  observe=['Mesh::h_refine_elems','Mesh::execute_h_refinements','Mesh::h_refine_with_filter','Mesh::global_h_refinement','Mesh::elem_is_h_refineable'])
p('C05','h-refinement batches mean what they say, however they are expressed',
  'Several refinements given for one cell combine to the least refinement that includes them all, independently of their order and grouping, and an extended refinement equals its first stage followed by the named second stage on the named child only. The global, list, closure and batch forms apply exactly the requested refinements to exactly the selected eligible cells, and all other cells keep their state.',
  ['inputs','histories'],'every batch (any multiset and order of T, U, V, U->V, V->U items over any cells) and every selection closure',
  'The combination table has 49 ordered pairs and longer sums; tests exercise a handful, and never compare forms or orders.',
  [M,D+'mesh/h_refinement.rs'],[('AddAssign for HRef',D+'mesh/h_refinement.rs'),('execute_h_refinements refinement map and extensions',M),('global_h_refinement / h_refine_elems / h_refine_with_filter',M)],
  observe=['HRef +=','Mesh.elems after the call'])
p('C06','Every interior interface is activated exactly once on its deepest pair',
  'Whenever a mesh is built, refined or exported, each stretch of interface with cells on both sides is covered by exactly one active edge, the finest level at which both sides still have cells, and boundary sides are never active. The active pair of an active edge is the most refined cell on each side (first the lower/left, then the upper/right one), and the partner lookup on such an edge returns the other member.',
  ['histories','inputs'],'every reachable mesh, including hanging nodes several levels deep, anisotropic neighbours and several base cells',
  'Tests check the active edges of two small hand-made meshes.',
  [M,D+'mesh/edge.rs'],[('set_edge_activation / rec_set_edge_activation_in_tree',M),('Edge::set_activation / last_entry',D+'mesh/edge.rs')],
  state=[('Edge.active_elems','the pair supporting edge DoFs',D+'mesh/edge.rs')],observe=['Edge::active_elem_pair','Edge::other_active_elem_id','Edge::is_boundary'])
p('C07','The mesh depends only on which refinements were made, not on their order',
  'Performing the same refinements (each on the same cell) in any admissible order and in any grouping into batches yields the same mesh up to renumbering: the same cells, nodes, edges, adjacency, boundary marks, active pairs and expansion orders, hence the same degrees of freedom and the same system matrices up to a permutation. Cloning a mesh and refining the copy leaves the original untouched.',
  ['histories'],'all pairs of histories that apply the same set of refinements',
  'Confluence relates pairs of histories; no test compares two histories.',
  [M,D+'mesh/edge.rs','src/fem_domain/domain.rs' if False else 'src/fem_domain/domain.rs'],[('execute_h_refinements',M),('h_refine_edge_if_needed',M),('Domain::from_mesh','src/fem_domain/domain.rs')],
  observe=['Mesh','Domain.dofs','galerkin_sample_gep_hcurl'])
p('C08','Expansion orders always stay in range and rejected p-requests change nothing',
  'In every reachable state every expansion order lies between 1 and the documented maximum. Every order-changing request that would leave this range, names a missing cell or names a cell twice where that is forbidden returns an error, without panicking, and leaves all orders of all cells unchanged; every other request succeeds.',
  ['inputs','histories'],'all p-refinement and order-setting requests over all i8/u8 deltas and orders, including repeated items whose sum is large, on any mesh',
  'Tests use a few small deltas; sums near the integer limits, and the state after a rejected batch, are never examined.',
  [M,D+'mesh/p_refinement.rs'],[('PRefInt arithmetic and bounds',D+'mesh/p_refinement.rs'),('execute_p_refinements two-pass validation',M),('PolyOrders::set / refine',D+'mesh/p_refinement.rs'),('set_expansion_orders',M)],
  observe=['Elem.poly_orders','Mesh::execute_p_refinements','Mesh::set_expansion_orders','PolyOrders::refine'])
p('C09','p-refinements add up, clamp and target exactly as documented',
  'Deltas given for one cell are summed exactly; the global and closure forms clamp each cell\'s delta into its window and the other forms apply it unclamped; the reported window is exactly the set of admissible deltas; setting orders sets exactly the named cells. Exactly the selected cells (refined cells included) change, in the named direction only, children inherit the orders their parent had when it was refined and are independent of it afterwards, and the reported maximum orders are the maxima over all cells.',
  ['inputs','histories'],'all interleavings of h- and p-requests in all their forms, with any deltas and selections',
  'Tests apply one or two p-refinements of each kind to small meshes.',
  [M,D+'mesh/p_refinement.rs'],[('AddAssign for PRef, constrained_to, falls_within',D+'mesh/p_refinement.rs'),('global_p_refinement / p_refine_elems / p_refine_with_filter(_bounded) / set_*',M),('Elem::h_refine inherits poly_orders',D+'mesh/elem.rs')],
  observe=['Elem.poly_orders','Mesh::elem_p_refinement_window','Mesh::max_expansion_orders','PRef::as_array'])
p('C10','A Domain has exactly the right degrees of freedom',
  'A domain built on a mesh has exactly one degree of freedom per interior (bubble) function of every unrefined cell and, per active edge, one for each tangential order both members of the active pair support, each made of the two matching functions; there are no others. Ids are dense and unique, every function of every degree of freedom is retrievable at its recorded cell and address and names that degree of freedom back, and no function belongs to two.',
  ['histories','inputs'],'every reachable mesh with every assignment of expansion orders (1 to the maximum, different in u and v and between neighbours)',
  'Tests compare DoF counts on three meshes with mostly uniform orders; mixed orders across hanging nodes are not covered.',
  ['src/fem_domain/domain.rs',D+'dof.rs',D+'dof/basis_spec.rs'],[('Domain::from_mesh','src/fem_domain/domain.rs'),('BasisSpec::new / matches_with_edge',D+'dof/basis_spec.rs')],
  observe=['Domain.dofs','Domain.basis_specs','DoF::get_basis_specs','Domain::get_basis_spec'])
p('C11','Every degree of freedom is a tangentially continuous, boundary-conforming field',
  'The vector field of every degree of freedom has a tangential component that is continuous across every interior interface, including hanging nodes and differently refined or differently ordered neighbours, and that vanishes on the outer boundary. Hence every field computed from any coefficient vector is curl-conforming.',
  ['histories','inputs'],'every reachable mesh, order assignment and coefficient vector',
  'No test evaluates a field on both sides of an interface.',
  ['src/fem_domain/domain.rs','src/fem_domain/basis.rs',D+'fields.rs'],[('edge DoF pairing','src/fem_domain/domain.rs'),('HierCurlBasisFn::f_u/f_v','src/fem_domain/basis.rs'),('HierPoly edge values','src/fem_domain/basis/hierarchical_basis_fns.rs')],
  observe=['UniformFieldSpace::xy_fields','print_all_to_vtk'])
p('C12','Lookups are consistent for existing ids and fail cleanly for all others',
  'For every existing id the point, descendant, ancestor, window, eligibility and basis-function lookups return exactly what the refinement tree and the domain imply (with or without the starting item, ancestors from nearest to base). For every id or address that does not exist they return an error and never panic or return data.',
  ['inputs','histories'],'all lookups with all ids and addresses, in range, one past the end and far beyond, on every reachable mesh and domain',
  'Tests and doc examples query a few existing ids and no boundary value.',
  [M,'src/fem_domain/domain.rs'],[('elem_points, elem_diag_points, edge_points, descendant_elems, ancestor_elems, descendant_edges, elem_is_h_refineable, elem_p_refinement_window',M),('get_basis_spec, local/descendant/ancestor_basis_specs','src/fem_domain/domain.rs')],
  observe=['return values of the lookups'])
p('C13','Assembly integrates every overlapping function pair exactly once',
  'For any pair of integrals the assembled matrices are symmetric, of size the number of degrees of freedom, and each entry is the sum over all pairs of functions of the two degrees of freedom that live on the same cell or on a cell and one of its descendants, each integrated exactly once over the smaller cell with that region\'s material and with both functions sampled at the same physical points. Non-overlapping pairs contribute nothing, the first integral fills A and the second B, and unsuitable domains or quadrature settings are rejected with an error.',
  ['inputs','histories'],'every reachable domain, every pair of integrals and function spaces supplied through the public traits, every quadrature setting',
  'Tests compare one eigenvalue per mesh, in which lost or doubled couplings between distant refinement levels can hide.',
  ['src/fem_problem/galerkin.rs','src/fem_domain/domain.rs','src/fem_domain/basis.rs'],[('galerkin_sample_gep_hcurl','src/fem_problem/galerkin.rs'),('descendant_basis_specs','src/fem_domain/domain.rs'),('HierCurlBasisFn::defined_over','src/fem_domain/basis.rs')],
  observe=['galerkin_sample_gep_hcurl','GEP.a','GEP.b'])
p('C14','Mass and curl-curl entries equal the exact integrals',
  'With a sufficient quadrature order the entries produced for the L2 inner product and the curl-curl form equal the exact integrals of eps times the dot product, and of 1/mu times the product of the curls, of the physical basis functions over the real cell, for functions on the same cell and for a function and one on any descendant cell. This holds for every cell shape, refinement path, direction, order and material, and the default quadrature grid is always sufficient.',
  ['inputs','histories'],'all rectangular cells (any size and aspect ratio), T/U/V refinement paths, orders, directions and materials',
  'Tests compare full and by-parts integration with each other on the unit square and one eigenvalue; absolute values on stretched or anisotropically refined cells are not checked.',
  ['src/fem_problem/integration/integrals.rs','src/fem_domain/basis.rs'],[('CurlCurl::integrate, L2Inner::integrate','src/fem_problem/integration/integrals.rs'),('HierCurlBasisFn scaling','src/fem_domain/basis.rs')],
  observe=['galerkin_sample_gep_hcurl','HierCurlIntegral::integrate'])
p('C15','The basis-function cache is invisible',
  'Sampling a cell\'s basis, optionally over one of its descendants, returns the same function as constructing it directly with the sampler\'s own points and orders, whatever was requested before, from however many clones and threads, and also after a constructor panicked in another thread. Repeating a request on a healthy sampler reuses the earlier result instead of building it again.',
  ['schedules','histories'],'all histories of requests over all (cell, descendant) pairs from concurrently used clones',
  'No test calls the sampler twice with colliding cells or from two threads.',
  ['src/fem_domain/basis.rs'],[('BasisFnSampler::sample_basis_fn, BSDescription','src/fem_domain/basis.rs')],
  state=[('computed','shared map from description to built function','src/fem_domain/basis.rs')],observe=['BasisFnSampler::sample_basis_fn'])
p('C16','Sparse matrices accumulate symmetrically and lose nothing',
  'A sparse matrix behaves as a symmetric matrix to which every insert, grouped insert and merge adds: the value at (i,j) is the sum of everything added at (i,j) or (j,i), the upper-triangle iteration lists each stored position once in row-major order, and the entry count counts both triangles. Merging adds the other matrix and leaves it empty; out-of-range indices and mismatched dimensions are refused.',
  ['histories'],'all sequences of insert, insert_group, consume, clone and read on matrices of any dimension',
  'Tests run one fixed sequence per method.',
  [L+'sparse_matrix.rs'],[('insert, insert_group, consume_matrix, num_entries, iter_upper_tri',L+'sparse_matrix.rs')],
  state=[('entries','upper-triangle coordinate map',L+'sparse_matrix.rs')],observe=['SparseMatrix public methods'])
p('C17','Dense and PETSc exports describe the same symmetric matrix',
  'Converting a matrix to dense form or writing it to the PETSc binary file gives exactly the full symmetric matrix that was accumulated: both triangles, every stored value bit for bit, zeros elsewhere, including empty rows, with a header, row counts and column indices that a conforming reader accepts. A problem\'s A and B are written to their own files under the given prefix.',
  ['inputs'],'all dimensions and sparsity patterns (empty rows, dense rows, no entries, last row only) and all finite values',
  'Tests look at one small matrix.',
  [L+'sparse_matrix.rs','src/fem_problem/linalg.rs'],[('From<SparseMatrix> for DMatrix / AIJMatrixBinary',L+'sparse_matrix.rs'),('print_to_petsc_binary_file',L+'sparse_matrix.rs'),('GEP::print_to_petsc_binary_files','src/fem_problem/linalg.rs')],
  observe=['bytes of the written files','dense matrix'])
p('C18','The external solver call reports faithfully and always cleans up after itself',
  'A call hands the solver both matrix files and the target value (as a decimal number with ten places), returns exactly the eigenpair the solver wrote when it succeeds, and otherwise returns the error that corresponds to what went wrong (no solver directory, not launchable, each documented exit status, unreadable solution), without panicking. However the call ends, every file it or the solver created under its prefix is gone and no other file in the directory is touched.',
  ['fault_sequences','crash_points','inputs'],'every outcome of every step: directory missing, launch failure, any exit status or signal, solution files missing, truncated or corrupt, and several calls sharing one directory',
  'The one test of this path needs a real MPI/SLEPc solver and only covers success.',
  [L+'slepc_solve.rs','src/fem_problem/linalg.rs'],[('slepc_solve_gep, retrieve_solution, clean_directory, unique_prefix',L+'slepc_solve.rs')],
  observe=['result of slepc_solve_gep','directory contents before and after','command line seen by the launched program'])
p('C19','The built-in dense solver returns a true eigenpair nearest the target',
  'For every symmetric A and well-conditioned symmetric positive-definite B within the size limit, the returned pair satisfies A u = lambda B u with u nonzero and lambda the generalized eigenvalue closest to the target. Problems that are too large, have a B that is not positive definite, or have only zero eigenvalues are reported as the corresponding error, and normalization returns the unit vector in the same direction.',
  ['inputs'],'all symmetric positive-definite pencils up to the size limit and all targets',
  'One test solves one physical problem and looks only at the eigenvalue.',
  [L+'nalgebra_solve.rs','src/fem_problem/linalg.rs'],[('nalgebra_solve_gep',L+'nalgebra_solve.rs'),('EigenPair::normalized_eigenvector','src/fem_problem/linalg.rs')],
  observe=['EigenPair'])
p('C20','Computed fields are the coefficient-weighted sum over all refinement levels',
  'The X and Y fields computed from a coefficient vector equal, at every grid point of every unrefined cell, the sum over that cell and all its ancestors of coefficient times basis function evaluated at that physical point. They are stored under the given name with suffixes _x and _y, and a vector of the wrong length is refused.',
  ['inputs','histories'],'every reachable domain, coefficient vector and grid density of at least two points per direction (also different in the two directions)',
  'Tests print fields and never look at a value; only square grids are used.',
  [D+'fields.rs','src/fem_domain/basis.rs'],[('UniformFieldSpace::xy_fields',D+'fields.rs'),('HierCurlBasisFn::defined_over','src/fem_domain/basis.rs')],
  observe=['xy_fields','print_all_to_vtk'])
p('C21','Field quantities compose and the VTK file describes the same grid',
  'Mapping a function over a quantity or combining two quantities applies it pointwise, stores the result under the new name (replacing one of that name) and leaves the operands unchanged, and unknown names are errors that change nothing. A VTK file contains each requested quantity once with one value per point, the points of every unrefined cell\'s uniform grid, and cells that are exactly the small quadrilaterals of those grids in a valid vertex order; an export that could not be written completely is reported as an error.',
  ['histories','inputs'],'all sequences of quantity operations and exports, on any domain and grid density of at least two points per direction',
  'Tests check that files can be written; their content is never parsed.',
  [D+'fields.rs'],[('map_to_quantity, expression_2arg, print_quantities_to_vkt',D+'fields.rs')],
  state=[('quantities','named value grids',D+'fields.rs')],observe=['contents of the VTK file','returned errors'])
p('C22','The exported mesh JSON reflects the mesh exactly',
  'The exported file lists every element, cell, node and edge of the mesh once, in id order, with material values, parents, children, active flags, orders, levels, coordinates, boundary marks, directions, adjacency and active pairs equal to the state of the mesh at that moment. Exporting does not change the mesh otherwise, and a later export reflects later refinements. A file that could not be written completely is reported as an error.',
  ['histories'],'every reachable mesh and order assignment',
  'Tests only check that a file can be written.',
  [M,D+'mesh/elem.rs',D+'mesh/edge.rs',D+'mesh/node.rs',D+'mesh/element.rs'],[('Mesh::export_to_json',M),('to_json methods',D+'mesh/*.rs')],
  observe=['contents of the exported file'])
p('C23','Gauss quadrature is exact to its full degree on any interval',
  'For every number of points n the quadrature points lie in order strictly inside (-1,1), are symmetric, have positive weights and integrate every polynomial of degree up to 2n-1 exactly; with endpoints requested, the points -1 and +1 are present without disturbing the inner rule. Rescaling to a sub-interval maps the points affinely and reports the matching scale factor, so that 2D sums over rescaled rules are exact too.',
  ['inputs'],'all point counts a user can request (4 and up) and all sub-intervals',
  'Tests integrate a few functions with one or two point counts.',
  ['src/fem_problem/integration/glq.rs'],[('gauss_quadrature_points, scale_gauss_quad_points, real_gauss_quad*','src/fem_problem/integration/glq.rs')],
  observe=['gauss_quadrature_points','real_gauss_quad'])
p('C24','Shape functions, derivatives and basis functions match their formulas',
  'At every point of [-1,1] and for every order the shape functions and their first and second derivatives equal the documented polynomials, with or without second derivatives requested. The vector basis functions and derivatives built from them on any cell, or over any of its descendants, use the point of the parent that physically coincides with the sampled point, the cell\'s own Jacobian (of which the two length ratios and their maximum are reported too) and the documented direction.',
  ['inputs'],'all orders up to the maximum, all points, all cells and descendants',
  'Tests compare orders up to a fixed bound at a few points on the unit cell.',
  ['src/fem_domain/basis/hierarchical_basis_fns.rs','src/fem_domain/basis.rs'],[('HierPoly::with','src/fem_domain/basis/hierarchical_basis_fns.rs'),('HierCurlBasisFn','src/fem_domain/basis.rs')],
  observe=['HierCurlBasisFnSpace methods','HierCurlBasisFn::f_u, f_v, f_u_d1, f_v_d1'])
p('C26','Integration by parts splits the exact integral into its face and edge terms',
  'Integrating two basis functions by parts yields the same value as integrating them directly. Its face term is the integral of curl curl P dotted with Q over the smaller cell and its four edge terms are the integrals of curl P times the tangential part of Q along that cell\'s lower, upper, left and right side, each with the sign that makes them add up to the curl-curl integral; the L2 product has no edge terms. The accessors of a result agree with each other. This holds with either function on the larger cell, for every cell shape, refinement path, direction, order, material and sufficient quadrature order.',
  ['inputs','histories'],'all rectangular cells, T/U/V refinement paths, pairs of functions on a cell and on a descendant (in both roles), orders and materials',
  'One test compares full and by-parts totals on square cells; face and edge terms, stretched cells, descendants and materials are never looked at.',
  ['src/fem_problem/integration/integrals.rs','src/fem_problem/integration/glq.rs','src/fem_problem/integration.rs'],[('CurlCurl::integrate_by_parts, L2Inner::integrate_by_parts','src/fem_problem/integration/integrals.rs'),('real_gauss_quad_edge, real_gauss_quad_inner','src/fem_problem/integration/glq.rs'),('IntegralResult','src/fem_problem/integration.rs')],
  observe=['HierCurlIntegral::integrate_by_parts','IntegralResult::get_face, get_edges, unwrap_parts, full_solution'])
p('C27','Points, vectors and matrices obey the algebra and order they stand for',
  'Two points are equal exactly when both coordinates agree to the uniqueness accuracy of 1e-12 (whatever the sign of zero), equal points hash equally, the coordinate orders are total and follow the coordinates, and the orientation of two different points is the direction in which they lie further apart. Sums, products, quotients, determinants, inverses, transposes and matrix products of the parametric vectors and matrices are those of linear algebra.',
  ['inputs'],'all finite coordinates (nearly coincident ones and signed zeros included), vectors and invertible matrices',
  'No test compares points on either side of zero, hashes them, or multiplies or inverts a matrix that is not diagonal.',
  [D+'mesh/space.rs'],[('Point, FloatRep','src/fem_domain/domain/mesh/space.rs'),('V2D, M2D','src/fem_domain/domain/mesh/space.rs')],
  observe=['Point: ==, hash, x_order, y_order, orientation_with, dist, between','M2D/V2D operators'])
p('C25','Parallel assembly merges every contribution exactly once under any schedule',
  'Extending an eigenproblem from a parallel stream of sub-matrix pairs adds every pair exactly once, the first to A and the second to B, on top of what was already there, for every number of threads, item order and interleaving. Consequently assembling the same domain with any thread pool yields the same matrices (up to rounding).',
  ['schedules','inputs'],'all interleavings of worker threads and the collecting thread, all stream lengths (including empty) and thread counts',
  'Tests run one schedule per execution and compare only one eigenvalue.',
  ['src/fem_problem/linalg.rs','src/fem_problem/galerkin.rs'],[('ParallelExtend for GEP (channel)','src/fem_problem/linalg.rs'),('galerkin_sample_gep_hcurl','src/fem_problem/galerkin.rs')],
  observe=['GEP.a, GEP.b after par_extend'])
p('C28','A rejection names a true cause',
  'When the mesh rejects a refinement or order request, the error names a reason that holds for that request: a cell it calls missing does not exist, a cell it calls not refineable is in the request and cannot take the requested refinement, an edge it calls too short is a side of a requested cell whose halves would fall below the minimum length, a cell it calls out of bounds would leave the order range, and duplicates or invalid child indices are claimed only when present. Lookups of ids that do not exist name exactly that id and its kind, and field operations that fail name the missing quantity or the expected and the given solution size. The printed text of an error carries the ids, orders, sizes or names it is about.',
  ['inputs','histories'],'all refinement histories, all requests with any number of simultaneous faults in any order, all missing ids, all sequences of field operations',
  'Tests assert is_err() only; which error is returned, and which id it carries, is never looked at.',
  [D+'mesh.rs',D+'mesh/h_refinement.rs',D+'mesh/p_refinement.rs',D+'fields.rs'],[('execute_h_refinements, validate_h_refinement, h_refine_elems','src/fem_domain/domain/mesh.rs'),('execute_p_refinements, set_expansion_orders, p_refine_elems','src/fem_domain/domain/mesh.rs'),('MeshAccessError lookups','src/fem_domain/domain/mesh.rs'),('UniformFieldError','src/fem_domain/domain/fields.rs')],
  observe=['HRefError, PRefError, MeshAccessError, UniformFieldError values'])
p('C29','Local functions are filed where they live and match exactly when continuous',
  'A basis-function specification built for a cell is filed under the edge of the cell on which its tangential component does not vanish (for a W-directed function: the corner or edge on which its value does not vanish), with that component\'s index and id, and under the cell itself if there is none. Two edge-filed specifications of the same edge match, in either order of asking, exactly when they lie on opposite sides of it with the same direction and the same order along it; asking about specifications of other kinds or of different edges is refused. A degree of freedom made of 1, 2 or 4 addresses returns exactly these in the order given, and the degree of freedom of a specification is set once.',
  ['inputs','histories'],'all refined meshes, pairs of cells, directions and orders',
  'Matching is only exercised indirectly through whole domains with U and V functions, corners and W functions never.',
  [D+'dof/basis_spec.rs',D+'dof.rs'],[('BasisSpec::new, matches_with_edge, set_dof_and_idx','src/fem_domain/domain/dof/basis_spec.rs'),('BasisLoc','src/fem_domain/domain/dof/basis_spec.rs'),('DoF::new, get_basis_specs','src/fem_domain/domain/dof.rs')],
  observe=['BasisSpec.loc, matches_with_edge, ==, integration_data','DoF::get_basis_specs'])
p('C30','The assembled discrete space is sound and only grows',
  'On every mesh the degrees of freedom are linearly independent: the assembled mass matrix of a domain with positive materials is positive definite. The assembled curl-curl energy is never negative, and as long as no cell has a smaller order than the cell it was split from, it vanishes on exactly the fields without curl (the gradients of the potentials the mesh carries, and one harmonic field per hole). Refining cells and raising orders loses nothing: the number of degrees of freedom does not fall, and counted from below the eigenvalues do not rise, counted from above they do not fall.',
  ['inputs','histories'],'all meshes reachable by h- and p-refinement, materials with positive constants, any shape of the base mesh (holes, several pieces)',
  'Tests look at a single eigenvalue of one mesh; independence, the null space and monotonicity over a history are never looked at.',
  ['src/fem_domain/domain.rs',D+'mesh.rs','src/fem_problem/galerkin.rs','src/fem_problem/integration/integrals.rs'],[('Domain::from_mesh (matching of local functions)','src/fem_domain/domain.rs'),('edge activation','src/fem_domain/domain/mesh.rs'),('galerkin_sample_gep_hcurl','src/fem_problem/galerkin.rs'),('CurlCurl, L2Inner','src/fem_problem/integration/integrals.rs')],
  observe=['GEP.a, GEP.b of successive states of one history'])
p('C31','A rectangular cavity has its resonances and no spurious ones',
  'The eigenproblem assembled for a rectangle filled with one material, on whatever refined mesh, has the eigenvalues pi^2 (p^2/a^2 + q^2/b^2) / (eps mu) for all p, q >= 0 that the mesh resolves, each as often as the formula gives it, zero as often as there are fields without curl, and nothing in between, up to the accuracy of the lowest order in use.',
  ['inputs','histories'],'all rectangles composed of rectangular cells, all refinement histories that keep orders of split cells, orders from 3 up, positive materials',
  'One example compares one eigenvalue with a published value; multiplicities, other modes and spurious values are not looked at.',
  ['src/fem_problem/galerkin.rs','src/fem_problem/integration/integrals.rs','src/fem_domain/domain.rs','src/fem_domain/basis.rs'],[('galerkin_sample_gep_hcurl','src/fem_problem/galerkin.rs'),('CurlCurl, L2Inner','src/fem_problem/integration/integrals.rs'),('HierCurlBasisFn','src/fem_domain/basis.rs')],
  observe=['GEP.a, GEP.b'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for e in P: f.write(json.dumps(e,ensure_ascii=False)+'\n')
print(len(P))
