"""The property catalogue: writes /verif/properties.jsonl and /verif/MANIFEST.json.

    /opt/venv/bin/python -m mc.catalog
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
Q = "modepy/quadrature/"

ENUM = ("explicit-state model checking: complete breadth-first enumeration of a bounded "
        "configuration graph, the real code driven through every state and compared "
        "with a reference model")
HIST = ("explicit-state model checking over call histories: every sequence of events up "
        "to the bound is executed on the real code and compared with a reference model")


def prop(id, title, statement, over, text, why, files, mech, technique=ENUM, note="",
         observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files,
                           "mechanism": [{"name": a, "where": b} for a, b in mech],
                           **({"observe_at": observe} if observe else {}),
                           **({"state": state} if state else {}),
                           "hook_needed": None},
                  technique=technique, note=note))


prop("C01", "Simplex quadrature rules integrate all polynomials of their declared degree",
     "Every simplex rule that can be constructed (Xiao-Gimbutas, Vioreanu-Rokhlin, "
     "Jaskowiec-Sukumar and Grundmann-Moeller, in every dimension and order offered) "
     "integrates every polynomial of total degree at most its exact_to over the unit "
     "simplex exactly (to rounding), and exact_to is at least the order asked for. "
     "Nodes and weights have matching shapes, tabulated nodes lie inside the simplex, "
     "and an order or dimension that is not offered raises QuadratureRuleUnavailable "
     "(or the documented error), never a silently weaker rule.",
     ["inputs", "configurations"],
     "every rule family x dimension x order (every table entry), every polynomial of the "
     "declared degree (decided on a complete basis)",
     "test_quadrature samples some orders and integrates a few monomials; a damaged table "
     "row, an off-by-one in exact_to or a wrong fallback survives",
     [Q + "xiao_gimbutas.py", Q + "vioreanu_rokhlin.py", Q + "jaskowiec_sukumar.py",
      Q + "grundmann_moeller.py"],
     [("table look-up and scaling", Q + "xiao_gimbutas.py:XiaoGimbutasSimplexQuadrature"),
      ("table look-up", Q + "vioreanu_rokhlin.py:VioreanuRokhlinSimplexQuadrature"),
      ("table look-up", Q + "jaskowiec_sukumar.py:JaskowiecSukumarQuadrature"),
      ("construction", Q + "grundmann_moeller.py:GrundmannMoellerSimplexQuadrature")])

prop("C02", "1-D Gauss, Lobatto, Clenshaw-Curtis and Fejer rules are the exact rules",
     "For every number of points and every Jacobi parameter pair > -1, every backend and "
     "axis convention, the Jacobi-Gauss, Legendre-Gauss, Chebyshev-Gauss, Gegenbauer, "
     "Gauss-Lobatto, Clenshaw-Curtis and Fejer rules integrate every polynomial up to "
     "their exact_to (2N+1, 2N-1, N, ...) against their weight function exactly. Nodes "
     "are distinct, inside the interval (Lobatto/Clenshaw-Curtis include the end points), "
     "weights are positive, and force_dim_axis only changes the shape of the nodes. "
     "Unsupported parameters, backends and sizes raise ValueError.",
     ["inputs", "configurations"],
     "all (alpha, beta) pairs from a 7x7 grid, backends, axis conventions, contiguous N, "
     "complete polynomial bases",
     "tests use a few (alpha, beta, N) and one convention; Lobatto with nonzero parameters "
     "was in fact wrong at the pinned commit",
     [Q + "jacobi_gauss.py", Q + "clenshaw_curtis.py"],
     [("Golub-Welsch / scipy backends",
       Q + "jacobi_gauss.py:JacobiGaussQuadrature.compute_weights_and_nodes"),
      ("Lobatto nodes and weights", Q + "jacobi_gauss.py:JacobiGaussLobattoQuadrature"),
      ("DFT construction", Q + "clenshaw_curtis.py")])

prop("C03", "Composite quadrature: products, intervals, declared exactness, call semantics",
     "A tensor product of any sequence of rules is the rule whose nodes are all "
     "combinations in the documented order, whose weights are the products, which "
     "integrates products of integrands exactly, and whose exact_to is the minimum of its "
     "components' (raising AttributeError if one is undeclared). A rule mapped to an "
     "interval [a, b] integrates over [a, b]; Witherden-Vincent rules integrate over the "
     "square/cube to their declared degree; 'infinitely exact' compares greater than "
     "every integer. Applying a rule to an integrand is the weighted sum of its values, "
     "for scalar and vector valued, real and complex integrands.",
     ["inputs", "programs"],
     "all sequences of length 0..3 (thorough 4) over a set of component rules incl. "
     "0-dimensional and undeclared ones, all containers and nestings, every tabulated "
     "rule, all intervals x rules",
     "tests build a couple of homogeneous products; heterogeneous, empty, nested and "
     "0-dimensional ones are never built",
     [Q + "__init__.py", Q + "witherden_vincent.py"],
     [("products", Q + "__init__.py:TensorProductQuadrature"),
      ("interval map", Q + "__init__.py:Transformed1DQuadrature"),
      ("infinite exactness", Q + "__init__.py:_Inf"),
      ("application", Q + "__init__.py:Quadrature.__call__"),
      ("tables", Q + "witherden_vincent.py:WitherdenVincentQuadrature")])

prop("C04", "quadrature_for_space integrates the whole space over its shape",
     "For every supported polynomial space and matching shape, the rule returned by "
     "quadrature_for_space integrates every function of the space over the shape exactly, "
     "has the shape's dimension, and declares an exact_to at least the order of the space "
     "(for mixed-order products: at least each factor's order in that factor). Mismatched "
     "(space, shape) pairs are rejected with an exception instead of returning a rule.",
     ["inputs", "configurations"],
     "all simplices dim 0..4 and all supported products with all mixed orders, all "
     "nestings; every (space kind, shape kind) pair",
     "tests cover PN and QN of a few orders, no mixed products, no thresholds where the "
     "implementation switches rule family",
     [Q + "__init__.py"],
     [("dispatch and choice of rule", Q + "__init__.py:_quadrature_for_pn"),
      ("products", Q + "__init__.py:_quadrature_for_tp")])

prop("C05", "Gauss-Kronrod pairs are the embedded exact pairs for every order",
     "For every n >= 1 make_kronrod_quadrature(n) combines an n-point Gauss rule exact to "
     "degree 2n-1 with n+1 further interlaced nodes such that the combination integrates "
     "every polynomial of degree 3n+1 exactly; nodes are distinct, symmetric and interior, "
     "weights positive, and exact_to says so for both rules. gauss(n) and kronrod(n) give "
     "the same rules, n < 1 raises ValueError, and neither the order in which rules are "
     "built nor modifying a returned rule changes any other.",
     ["inputs", "histories"],
     "every order up to 40 (thorough 160), complete polynomial bases, 3 build histories",
     "tests use one or two orders", [Q + "kronrod.py"],
     [("Laurie's algorithm", Q + "kronrod.py:kronrod"),
      ("pair", Q + "kronrod.py:make_kronrod_quadrature")],
     observe=["KronrodQuadrature.__call__"])

prop("C06", "Adaptive quadgk: right value, honest error estimate, termination",
     "For every sequence of breakpoints (ascending, descending, repeated, complex "
     "contours, reaching plus/minus infinity), quadgk returns the integral of the function "
     "along it within its tolerance and error estimate; reversing the sequence negates "
     "the result, pieces add up (value and error estimate), a jump at a breakpoint costs "
     "nothing, and the number type in which breakpoints are given is irrelevant. If the evaluation budget runs out it still returns and, for integrands "
     "it can resolve, the error estimate covers the true error. A NaN, an infinity or an "
     "exception produced by the integrand at any single evaluation is reported (NaN/inf "
     "result, error, or the exception itself), never turned into a finite wrong answer, "
     "and invalid arguments raise.".replace(" and invalid", " Invalid"),
     ["inputs", "fault_sequences"],
     "all breakpoint sequences of length 2..3 (thorough 4) over a finite set, all monotone "
     "ones with infinities, all contours over 5 points; for faults every evaluation index "
     "k x answer kind",
     "tests integrate a handful of functions over one interval each and never fail an "
     "evaluation",
     [Q + "kronrod.py"],
     [("heap of segments", Q + "kronrod.py:_do_quadgk"),
      ("infinite transforms", Q + "kronrod.py:_transform_semi_inf_neg"),
      ("entry point", Q + "kronrod.py:quadgk")],
     technique="model checking the adaptive loop: exhaustive enumeration of breakpoint "
               "sequences and of every single environment answer (fault injection at "
               "every evaluation) on the real code",
     state=[{"name": "segment heap", "meaning": "open segments by error",
             "where": Q + "kronrod.py:_do_quadgk"}])

prop("C07", "Quadrature construction toolbox is correct for every domain and order",
     "linearly_combine/LinearCombinationIntegrand evaluate to the stated linear "
     "combination for every nesting of combinations and plain functions without changing "
     "their operands; orthogonalize_basis returns an orthonormal basis spanning the input; "
     "guess_nodes_vioreanu_rokhlin returns nodes inside the domain from which "
     "find_weights_undetermined_coefficients produces weights integrating all given "
     "integrands (least squares / minimum norm if not square). quad_residual_and_jacobian "
     "returns the true residual and its exact derivatives with respect to weights and "
     "nodes, and the Gauss-Newton increment restores exactness of a perturbed rule.",
     ["inputs", "programs"],
     "all lists of 1..3 operands (and all second-level nestings) out of 10, every (domain, "
     "order, starting basis) listed, every (order, rule size, node layout)",
     "one end-to-end test each; nested combinations and flat 1-D nodes were broken at the "
     "pinned commit",
     [Q + "construction.py"],
     [("flattening", Q + "construction.py:linearly_combine"),
      ("SVD orthogonalization", Q + "construction.py:orthogonalize_basis"),
      ("node guess", Q + "construction.py:guess_nodes_vioreanu_rokhlin"),
      ("weights", Q + "construction.py:find_weights_undetermined_coefficients"),
      ("residual and Jacobian", Q + "construction.py:quad_residual_and_jacobian"),
      ("increment", Q + "construction.py:quad_gauss_newton_increment")])

prop("C08", "Transplanted quadrature maps are the documented maps with exact derivatives",
     "Every transplanted map (identity, sausage of every degree, Kosloff-Tal-Ezer by rho "
     "or alpha, strip for 1.2 <= rho <= 1000) is an increasing odd bijection of [-1, 1] "
     "fixing the end points, equal to its documented formula, and the second value it "
     "returns is its derivative. Transplanting a rule maps its nodes by g and multiplies "
     "its weights by g' so smooth integrals converge, also for any other change of "
     "variable; the result for one parameter never "
     "depends on which parameters were used before. Invalid parameters raise ValueError.",
     ["inputs", "histories"],
     "every map x parameter grid x base rule x n x axis convention, all ordered pairs of "
     "strip parameters, histories that overflow the parameter cache",
     "tests check a few parameters on one base rule and no histories",
     [Q + "transplanted.py"],
     [("maps", Q + "transplanted.py:map_sausage"), ("", Q + "transplanted.py:map_strip"),
      ("", Q + "transplanted.py:map_kosloff_tal_ezer"),
      ("rules", Q + "transplanted.py:transplanted_1d_quadrature")],
     state=[{"name": "strip parameter cache", "meaning": "16 most recent rho",
             "where": Q + "transplanted.py:_strip_map_parameter_m"}])

prop("C09", "Jacobi polynomials, derivatives and conventional scaling",
     "jacobi(alpha, beta, n, x) is the orthonormal Jacobi polynomial of degree n with "
     "positive leading coefficient for every alpha, beta > -1, including alpha+beta = -1 "
     "and 0, and grad_jacobi is its derivative at every point including the end points. "
     "scaled_jacobi is the same polynomial in the conventional normalization "
     "P_n(1) = binom(n+alpha, n). All three accept scalars and arrays of any shape, "
     "return values elementwise and leave their argument unchanged.",
     ["inputs"],
     "7x7 (alpha, beta) grid, every n up to 24 (thorough 60) plus {80, 90, 120, 140}, "
     "points inside/at/near the ends, all argument kinds",
     "tests check orthogonality for few parameters; overflow at n ~ 100 was undetected",
     ["modepy/modes.py"],
     [("recurrence", "modepy/modes.py:jacobi"), ("derivative", "modepy/modes.py:grad_jacobi"),
      ("scaling", "modepy/modes.py:scaled_jacobi")])

prop("C10", "Orthonormal bases are orthonormal, complete, finite and vectorized",
     "For every space (simplices of dim 0..3 and every supported tensor product, in all "
     "mixed orders), the orthonormal basis has exactly space_dim functions, is orthonormal "
     "on the reference shape, and spans exactly the polynomial space. Every function is "
     "finite and continuous at every point of the closed shape, including collapsed "
     "vertices and edges and arbitrarily near them, and evaluating many points at once "
     "(any memory layout) equals evaluating them one by one.",
     ["inputs", "configurations"],
     "every supported space up to the stated orders, every retrieval function and shape "
     "nesting, 10 point families incl. all vertices and 1e-13..1e-3 neighbourhoods",
     "tests use generic interior points and a few orders",
     ["modepy/modes.py"],
     [("PKDO", "modepy/modes.py:pkdo_2d"), ("PKDO", "modepy/modes.py:pkdo_3d"),
      ("collapsed coordinates", "modepy/modes.py:_rstoab"),
      ("products", "modepy/modes.py:TensorProductBasis")])

prop("C11", "Gradients and derivatives are the exact derivatives of the basis functions",
     "For every orthonormal, default and monomial basis of every space of dim >= 1, "
     "gradients[i](x) and derivatives(axis)[i](x) are the exact partial derivatives of "
     "functions[i] for every mode, axis and point of the closed shape (including all "
     "vertices and edges), in the documented shape and order; axes count from either end "
     "as in numpy and any other axis is rejected. Memory layout, batch size and "
     "read-only input make no difference.",
     ["inputs", "configurations"],
     "every supported space up to the stated orders, all modes and axes, point families "
     "incl. vertices and edges",
     "tests use finite differences at random interior points with loose tolerance",
     ["modepy/modes.py"],
     [("analytic gradients", "modepy/modes.py:grad_pkdo_3d"),
      ("products", "modepy/modes.py:_TensorProductGradientBasisFunction"),
      ("monomials", "modepy/modes.py:grad_monomial"),
      ("derivatives", "modepy/modes.py:Basis.derivatives")])

prop("C12", "Mode identifiers name the modes: order, uniqueness, degree, monomials",
     "mode_ids of every basis has one distinct entry per function in the same order; for "
     "monomials the function is the monomial with those exponents, and for orthonormal "
     "modes the id states the exact degree in every factor. Tensor product ids are the "
     "concatenation of the factors' ids with the documented ordering, also for products of "
     "bases of unrelated kinds, and the bases' nesting is not visible in them. Products of "
     "user-written bases multiply functions, derivatives and orthonormality weights.",
     ["inputs", "programs"],
     "every P^n in dims 0..5, every supported product of 2..3 (thorough 4) factors, "
     "hand-built mixed products",
     "tests never relate ids to functions beyond counts",
     ["modepy/modes.py"],
     [("simplex ids", "modepy/modes.py:SimplexBasis.mode_ids"),
      ("product ids", "modepy/modes.py:TensorProductBasis.mode_ids"),
      ("monomials", "modepy/modes.py:monomial")])

prop("C13", "Symbolic basis expressions equal the numeric functions",
     "symbolicize_function applied to every basis function, gradient and directional "
     "derivative gives an expression whose value at every point, including every vertex, "
     "equals the numeric function's, and jacobi/grad_jacobi accept symbolic arguments with "
     "the same result.",
     ["inputs", "configurations"],
     "every mode of the bases of every listed space, value/gradient/derivatives, point by "
     "point incl. singular vertices, two variable names",
     "test_symbolic samples one order per basis",
     ["modepy/modes.py"],
     [("symbolic evaluation", "modepy/modes.py:symbolicize_function"),
      ("branches", "modepy/modes.py:_where")])

prop("C14", "Node tuples and interpolation node sets are complete and unisolvent",
     "node_tuples_for_space enumerates exactly the multi-indices of the space, once each, "
     "in the documented order; equispaced and edge-clustered (warp & blend, "
     "Lobatto-based) nodes have shape (dim, space_dim), lie in the closed shape, are "
     "distinct, unisolvent, and follow the order of the node tuples, also when the node "
     "tuples are given in any permutation. Wrong tuple counts and mismatched "
     "space/shape pairs raise.",
     ["inputs", "configurations"],
     "all spaces up to the stated orders; every permutation of up to 6 (thorough 7) tuples; "
     "all mismatched pairs",
     "tests check a few orders and never a permuted tuple list",
     ["modepy/nodes.py"],
     [("tuples", "modepy/nodes.py:node_tuples_for_space"),
      ("warp and blend", "modepy/nodes.py:warp_and_blend_nodes"),
      ("equispaced", "modepy/nodes.py:equidistant_nodes"),
      ("products", "modepy/nodes.py:_edge_clustered_nodes_for_tp")])

prop("C15", "Node sets are symmetric and compatible across faces and edges",
     "Equispaced and edge-clustered node sets on simplices are invariant under every "
     "permutation of the vertices, and on products under every symmetry of the factors and "
     "exchange of equal factors. The nodes on each edge are equispaced or Gauss-Lobatto "
     "points respectively, and all faces of a shape carry one and the same symmetric node "
     "set, so neighbouring elements share nodes whatever their orientation.",
     ["inputs", "configurations"],
     "every order up to 30/18/10 (thorough 60/26/18), all 2/6/24 vertex permutations, all "
     "faces and edges, all product symmetries",
     "no test permutes the vertices or compares traces",
     ["modepy/nodes.py"],
     [("2-D blend", "modepy/nodes.py:warp_and_blend_nodes_2d"),
      ("3-D blend", "modepy/nodes.py:warp_and_blend_nodes_3d"),
      ("edge warp", "modepy/nodes.py:warp_factor")])

prop("C16", "Tensor product nodes and (un)reshaping of DOF arrays agree on the ordering",
     "tensor_product_nodes lists every combination of its factors' nodes with the "
     "documented axis order for any sequence of node sets (also multi-dimensional, flat, "
     "empty sequence). reshape_array_for_tensor_product_space turns the DOF axis of an "
     "array of any rank into one axis per factor such that varying along a factor's axis "
     "varies only that factor's node/mode, unreshape_ is its exact inverse, and arrays of "
     "the wrong length are rejected.",
     ["inputs", "programs"],
     "all sequences of length 0..3 (4) of node sets; all supported spaces x ranks 1..4 x "
     "every axis (either end) x memory layouts",
     "tests use one array and the last axis",
     ["modepy/nodes.py", "modepy/tools.py"],
     [("node ordering", "modepy/nodes.py:tensor_product_nodes"),
      ("reshape", "modepy/tools.py:reshape_array_for_tensor_product_space"),
      ("unreshape", "modepy/tools.py:unreshape_array_for_tensor_product_space")])

prop("C17", "Vandermonde and resampling matrices reproduce every member of the space",
     "vandermonde(functions, nodes)[i, j] is function j at node i for every function list "
     "(real, complex or mixed precision), and multi_vandermonde does so per component. "
     "resampling_matrix(basis, new, old) maps nodal values of every member of the space at "
     "the old nodes to its values at the new nodes for every pair of node sets "
     "(also least-squares when asked), so that resampling forth and back is the identity; "
     "a non-square system is rejected unless least squares was requested.",
     ["inputs", "configurations"],
     "all listed spaces x every ordered pair of node sets x bases; all sequences of 0..3 "
     "functions over mixed dtypes",
     "tests use one pair of node sets; dtype mixing was broken at the pinned commit",
     ["modepy/matrices.py"],
     [("assembly", "modepy/matrices.py:vandermonde"),
      ("components", "modepy/matrices.py:multi_vandermonde"),
      ("solve", "modepy/matrices.py:resampling_matrix")])

prop("C18", "Differentiation matrices differentiate every member of the space exactly",
     "differentiation_matrices/diff_matrices map the nodal values of every member of the "
     "space to its partial derivatives at the same (or the requested other) nodes, one "
     "matrix per axis, for every basis and unisolvent node set. "
     "diff_matrix_permutation returns the permutation p such that reordering rows and "
     "columns of the first differentiation matrix gives the one of the requested axis, "
     "for every symmetric node tuple list in any order.",
     ["inputs", "configurations"],
     "all listed spaces, 4 source and several target node sets, both entry points; every "
     "axis and tuple order",
     "tests check sine convergence in one ordering",
     ["modepy/matrices.py"],
     [("derivative solve", "modepy/matrices.py:differentiation_matrices"),
      ("permutation", "modepy/matrices.py:diff_matrix_permutation")])

prop("C19", "Mass, bilinear-form and face matrices equal the exact integrals",
     "mass_matrix gives the exact L2 inner product of nodal interpolants (and "
     "inverse_mass_matrix its inverse) for every space and unisolvent node set; the "
     "nodal/modal quadrature mass, bilinear-form and face mass matrices equal the "
     "quadrature sums they document for every choice of test/trial space, quadrature and "
     "node map, hence the exact integrals whenever the rule is exact enough. Face "
     "matrices do so on every face, the spectral diagonal mass matrix holds the "
     "quadrature weights, and mismatched arguments raise ValueError.",
     ["inputs", "configurations"],
     "all listed spaces, all ordered (test, trial) order pairs 0..4, node maps, every "
     "face of every supported shape",
     "tests check one configuration of each matrix",
     ["modepy/matrices.py"],
     [("mass", "modepy/matrices.py:mass_matrix"),
      ("bilinear forms", "modepy/matrices.py:nodal_quadrature_bilinear_form_matrix"),
      ("faces", "modepy/matrices.py:nodal_quad_mass_matrix_for_face")])

prop("C20", "Faces: complete, oriented, affine -- the divergence theorem holds",
     "For lines, triangles, tetrahedra, squares and cubes, faces_for_shape lists every "
     "face exactly once; each face's map_to_volume is the affine map taking the face's "
     "unit vertices, in order, to the listed volume vertices; face_normal is orthogonal to "
     "the face, points outward and has unit length if normalized. With them, the surface "
     "integral of the normal component of every polynomial vector field equals the volume "
     "integral of its divergence.",
     ["inputs", "configurations"],
     "all shapes x faces, all monomial fields up to total degree 6 (thorough 9), all pairs "
     "of faces",
     "tests check normals with one field", ["modepy/shapes.py"],
     [("simplex faces", "modepy/shapes.py:faces_for_simplex"),
      ("hypercube faces", "modepy/shapes.py:faces_for_hypercube"),
      ("normals", "modepy/shapes.py:face_normal")])

prop("C21", "Submeshes tessellate the element for every node tuple order",
     "submesh_for_shape splits the lattice of node tuples of a simplex, hypercube or "
     "supported tensor product, of every order and in any order of the tuples, into "
     "non-degenerate, positively oriented elements of the same kind that are disjoint, "
     "conforming, use every node and fill the shape: exactly the product of n^d elements. "
     "The tuple list passed in is not changed.",
     ["inputs", "configurations"],
     "simplices dim 1..3, all supported products with all mixed orders, all permutations "
     "of up to 6 tuples and 6 orders of larger ones",
     "tests check areas for one order and the default tuple order",
     ["modepy/shapes.py"],
     [("simplices", "modepy/shapes.py:submesh_for_simplex"),
      ("products", "modepy/shapes.py:submesh_for_hypercube")])

prop("C22", "Shape and space objects form the documented tensor-product algebra",
     "For every expression of Simplex, Hypercube and TensorProductShape (and PN, QN and "
     "TensorProductSpace), however nested, the object has the flattened factors, dim, "
     "nvertices, nfaces, space_dim and order of the product it denotes, unit vertices in "
     "tensor-product order, and supported/unsupported products are accepted/rejected as "
     "documented. Shapes compare and hash equal exactly when they denote the same "
     "expression, are immutable, and survive copy, deepcopy and every pickle protocol. "
     "space_for_shape pairs every shape with the space of the orders asked for.",
     ["inputs", "configurations"],
     "all expressions nested to depth 2 (thorough 3) over the atoms of dims 0..4 and all "
     "order tuples; all pairs of depth-1 expressions for equality",
     "tests construct a handful of products; nesting, zero-dimensional factors, copying "
     "and hashing are untested", ["modepy/shapes.py", "modepy/spaces.py"],
     [("flattening", "modepy/shapes.py:TensorProductShape.__new__"),
      ("hypercubes", "modepy/shapes.py:Hypercube"),
      ("vertices", "modepy/shapes.py:unit_vertices_for_shape"),
      ("space flattening", "modepy/spaces.py:TensorProductSpace.__new__"),
      ("pairing", "modepy/spaces.py:space_for_shape")])

prop("C23", "Affine maps, reference coordinate maps and Monomial are exact",
     "AffineMap(a, b) evaluates a x + b, its inverse and jacobian are those of the map, for "
     "every matrix, argument layout and order of access (memoized results of one map never "
     "leak into another). Barycentric, unit and equilateral coordinates are converted "
     "consistently in every dimension, and Monomial evaluates, differentiates and "
     "integrates over simplex and hypercube exactly, including its factor.",
     ["inputs", "histories"],
     "all small integer matrices in dim 1..3, all access sequences up to length 3 (4), "
     "lattices in dims 0..5, all exponents of degree <= 6 in dims 0..4",
     "tests use one matrix and never access a map twice", ["modepy/tools.py"],
     [("affine maps", "modepy/tools.py:AffineMap"),
      ("coordinates", "modepy/tools.py:barycentric_to_unit"),
      ("monomials", "modepy/tools.py:Monomial")])

prop("C24", "Modal decay fits and tail estimators measure what they document",
     "degree_vector gives the total (or per-factor maximal) degree of every mode, and "
     "interp_error_coefficient_estimator_matrix extracts exactly the coefficients of the "
     "requested number of highest orders from nodal values, for every space and node set. "
     "fit_modal_decay returns the least-squares exponent and constant of the "
     "skyline-pessimized modal coefficients of each element on its own, whatever the other "
     "elements, their order and sign, and the residual estimate follows from the fit; the "
     "fitted exponent does not depend on the scale of the function.",
     ["inputs", "configurations"],
     "all spaces/orders/nestings/tail orders; all coefficient vectors over a 3-letter "
     "alphabet (1-D, <= 6 modes), power laws in 1..3-D, all ignored_modes 1..3",
     "tests fit a few 1-D functions and compare with loose ranges",
     ["modepy/modal_decay.py"],
     [("degrees", "modepy/modal_decay.py:degree_vector"),
      ("tails", "modepy/modal_decay.py:interp_error_coefficient_estimator_matrix"),
      ("fit", "modepy/modal_decay.py:fit_modal_decay")],
     note="Complete within the stated bounds, apart from the 12 recorded findings (scale "
          "dependence of the noise floor). Fits are compared where that floor is "
          "negligible.")

prop("C25", "Edge-clustered nodes are the published warp & blend nodes",
     "warp_and_blend_nodes and edge_clustered_nodes_for_space return Warburton's published "
     "warp & blend points, with the published blending parameter of every order, in every "
     "dimension, node order and entry point, and the Lebesgue constant reported by "
     "estimate_lebesgue_constant is the maximum of the Lebesgue function of the given "
     "nodes, bounded as published.",
     ["inputs", "configurations"],
     "triangles to order 20 (28), tetrahedra to 17 (20), lines to 40; Lebesgue constants "
     "of 8 shapes and every node set",
     "tests compare a few orders with stored plots' properties; a changed table entry keeps "
     "the nodes unisolvent and symmetric", ["modepy/nodes.py", "modepy/tools.py"],
     [("table and warping", "modepy/nodes.py:warp_and_blend_nodes_2d"),
      ("3-D", "modepy/nodes.py:warp_and_blend_nodes_3d"),
      ("Lebesgue constant", "modepy/tools.py:estimate_lebesgue_constant")])

prop("C26", "random_nodes_for_shape stays inside for every answer of the generator",
     "Whatever numbers the generator returns (every sequence of acceptances and "
     "rejections), random_nodes_for_shape ends with exactly the requested number of points "
     "inside the shape, made of accepted candidates only, without touching the global "
     "random state. The same generator state gives the same nodes, and successive calls and "
     "tensor factors give fresh ones.",
     ["histories", "inputs"],
     "all sequences of generator answers over a 5-letter alphabet up to length 4 (6), 12 "
     "shapes, 0..3 nodes; 50 (200) real seeds",
     "tests draw once from a real generator", ["modepy/nodes.py"],
     [("rejection sampling", "modepy/nodes.py:_random_nodes_for_simplex"),
      ("products", "modepy/nodes.py:_random_nodes_for_tp")], technique=HIST)

prop("C27", "No call changes the answer of any later call",
     "Every public function gives the same answer whatever was called before it in the "
     "process, and whatever the callers did with the arrays and lists they were given: "
     "overwriting a returned array never changes a cached rule, table, memoized map or "
     "later result.",
     ["histories"],
     "88 public calls; all histories of length 1, all of length 2 over the calls sharing "
     "module state (thorough: all pairs, some triples), each with and without the caller "
     "overwriting the results",
     "tests never modify what they are given and each uses a fresh rule; cache aliasing "
     "needs a second, particular call",
     [Q + "kronrod.py", Q + "transplanted.py", Q + "xiao_gimbutas.py",
      Q + "witherden_vincent.py", "modepy/tools.py", "modepy/nodes.py"],
     [("cached Kronrod rules", Q + "kronrod.py:kronrod"),
      ("cached strip parameter", Q + "transplanted.py:_strip_map_parameter_m"),
      ("memoized inverse", "modepy/tools.py:AffineMap.inverse")], technique=HIST)

prop("C28", "Results do not depend on array storage or on the rest of the batch",
     "Every function taking arrays gives the same values for every memory layout of each "
     "argument (C, Fortran, strided, reversed, offset, read-only) and for integer versus "
     "float storage of the same numbers, and never modifies an argument. Pointwise "
     "functions (bases, gradients, Jacobi polynomials, coordinate maps, face maps, "
     "monomials) give for every point of a batch, including singular points in any "
     "combination, what they give for the point alone, and accept empty batches.",
     ["inputs", "configurations"],
     "all public array functions x all combinations of 7 storage kinds of their arguments; "
     "all sequences of up to 3 (5) points from vertices, edge points and interior points",
     "tests pass freshly allocated C-ordered float arrays of generic points",
     ["modepy/modes.py", "modepy/matrices.py", "modepy/tools.py", "modepy/nodes.py"],
     [("collapsed coordinates", "modepy/modes.py:_rstoab"),
      ("matrices", "modepy/matrices.py:vandermonde"),
      ("reshaping", "modepy/tools.py:reshape_array_for_tensor_product_space"),
      ("skyline", "modepy/modal_decay.py:skyline_pessimize")])

SCHED = ("stateless model checking of the real code: every schedule of two real threads "
         "up to a preemption bound, executed under a controlled scheduler")

prop("C29", "Concurrent callers get the answers they would get alone",
     "When two threads call public functions at once (the same function with different "
     "arguments, or functions sharing cached state), starting from cold caches, each gets "
     "the answer it gets alone, under every schedule, and every later call is right too: "
     "no scratch space, cache entry or memoized value is shared half-built.",
     ["schedules"],
     "88 public calls against themselves with other arguments and all pairs of the calls "
     "sharing module state; every preemption point at distinct source lines, one "
     "preemption (two for small calls)",
     "tests are single threaded", [Q + "kronrod.py", Q + "transplanted.py",
                                   "modepy/tools.py", "modepy/nodes.py",
                                   "modepy/modes.py"],
     [("cached Kronrod rules", Q + "kronrod.py:kronrod"),
      ("memoized inverse", "modepy/tools.py:AffineMap.inverse"),
      ("module-level maps", "modepy/tools.py:EQUILATERAL_TO_UNIT_MAP")], technique=SCHED,
     note="Complete for two threads with the stated number of preemptions at line "
          "granularity (a C call is atomic), cold caches, and the argument sets of the "
          "call table.")

prop("C30", "Mismatched or unsupported requests are rejected, never silently answered",
     "A space and a shape that do not belong together (other dimensions, other factors or "
     "factor order, other kinds), foreign objects, table rules outside their tables, wrong "
     "numbers of orders, nodes, functions or derivatives, non-orthonormal bases where "
     "orthonormality is needed, invalid rule or map parameters, points and node tuples of "
     "another dimension and array axes of the wrong length raise an exception instead of returning an answer to another question; "
     "requests that do match are answered with the sizes they imply.",
     ["inputs", "configurations"],
     "all pairs of 22 kinds of spaces and shapes (nested ones in every nesting) x 6 "
     "functions x orders; all kinds x 6 one-argument functions; table rules in dims "
     "-1..5 x orders -3..90; all matrix builders x basis sizes x node counts; parameter "
     "lists of rules and maps; all axes and off-by-one lengths of reshapes",
     "tests try a handful of wrong arguments; a missing comparison only shows for a "
     "particular wrong combination",
     ["modepy/modes.py", "modepy/nodes.py", "modepy/matrices.py", "modepy/shapes.py",
      Q + "__init__.py", Q + "transplanted.py", Q + "construction.py"],
     [("bases", "modepy/modes.py:_orthonormal_basis_for_tp"),
      ("nodes", "modepy/nodes.py:_edge_clustered_nodes_for_pn"),
      ("quadrature", Q + "__init__.py:_quadrature_for_tp"),
      ("unisolvence", "modepy/matrices.py:differentiation_matrices"),
      ("reshapes", "modepy/tools.py:reshape_array_for_tensor_product_space")])

prop("C31", "Plotting helpers draw the data they are given",
     "plot_element_values draws the given nodes and values, or with resample_n exactly the "
     "interpolant of the values at the equidistant nodes of that order (higher or lower), "
     "on triangles which tile the element once and use every drawn node; show_nodes adds "
     "the given nodes and values; other dimensions are rejected. "
     "estimate_lebesgue_constant(visualize=True) returns the same constant as without, "
     "draws the Lebesgue function over the whole element (segment, triangle, square) and "
     "the nodes, and rejects 3-D. Arguments are left as they were.",
     ["inputs", "configurations"],
     "dims 1..2 x orders 1..8 x resampling none or to every order 1..9 x 4 fields x "
     "show_nodes; array layouts; rejected dims; 3 shapes x orders 1..5 x 2 node families",
     "no test calls the plotting code; a wrong triangulation only shows for a resampling "
     "order different from the order of the data",
     ["modepy/tools.py"],
     [("element values", "modepy/tools.py:plot_element_values"),
      ("Lebesgue function", "modepy/tools.py:estimate_lebesgue_constant"),
      ("sampling", "modepy/tools.py:_evaluate_lebesgue_function")])

prop("C32", "Every chain of discrete operators reproduces the calculus of polynomials",
     "Nodal values carried through any chain of resampling (between node sets and "
     "orders), differentiation, multiplication by coordinates, restriction to faces, L2 "
     "projection and affine pull-back stay the nodal values of the polynomial which "
     "exact calculus gives for this chain, whichever of the equivalent routes (matrix "
     "builders, orthonormal or monomial Vandermonde matrices) builds the operators; the "
     "discrete integrals and norms at the end are exact, and the discrete Gauss theorem "
     "holds over all faces.",
     ["histories", "configurations"],
     "7 shapes x 3 polynomials x 2 start node sets x every chain of up to 3 (thorough 4) "
     "operators over 3 node sets and orders up to 6 (1-D), 5 (2-D), 4 (3-D)",
     "tests apply one operator to one field; conventions of node order, mode order, "
     "axis and orientation that disagree between two operators only show in chains",
     ["modepy/matrices.py", "modepy/modes.py", "modepy/nodes.py", "modepy/shapes.py",
      Q + "__init__.py"],
     [("resampling", "modepy/matrices.py:resampling_matrix"),
      ("differentiation", "modepy/matrices.py:differentiation_matrices"),
      ("mass", "modepy/matrices.py:mass_matrix"),
      ("faces", "modepy/shapes.py:Face"),
      ("rules", Q + "__init__.py:quadrature_for_space")],
     technique=HIST)

prop("C33", "Process-wide settings neither change the answers nor are changed by calls",
     "Every valid request gets the same answer whatever the process is set up like: numpy "
     "error handling (divide, overflow and invalid raising, calling back or ignored), "
     "numeric warnings turned into errors, print options, buffer size, random state, "
     "garbage collector, calling thread, interpreter started with -O, -OO, -I, -bb, -X dev, "
     "another hash seed, locale or directory. In particular functions and gradients can be "
     "evaluated at and next to the singular vertices and edges without numeric warnings. "
     "Nor does an answer depend on whether the optional packages scipy and matplotlib are "
     "installed; the few calls that need scipy (the strip map, backend='scipy') raise an "
     "error naming it without it. "
     "No call leaves any of these settings (nor warning filters, environment, hooks, "
     "signal handlers) changed.",
     ["configurations", "histories"],
     "all public calls of the table with two argument sets x all settings; x 12 ways to "
     "start the interpreter; x each subset of the optional packages missing; all bases of "
     "8 shapes x singular point families; node, rule "
     "and matrix families for orders 0..12 (thorough 0..30)",
     "the test suite runs under one setting; a warning or a leaked setting only shows to "
     "callers with other settings",
     ["modepy/modes.py", "modepy/nodes.py", "modepy/matrices.py", "modepy/shapes.py",
      "modepy/tools.py", Q + "__init__.py", Q + "jacobi_gauss.py", Q + "kronrod.py"],
     [("singular points", "modepy/modes.py:_rstoab"),
      ("singular points", "modepy/modes.py:_rsttoabc"),
      ("random numbers", "modepy/nodes.py:random_nodes_for_shape"),
      ("optional packages", Q + "construction.py:orthogonalize_basis"),
      ("optional packages", Q + "transplanted.py:_strip_map_parameter_m"),
      ("caches", Q + "kronrod.py:kronrod")])

NOT_APPLICABLE = []


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            d = {k: p[k] for k in ("id", "title", "statement", "quantifier",
                                   "why_tests_cant", "anchors")}
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    have = {p["id"] for p in P if os.path.exists(
        os.path.join(ROOT, "mc", "checks", p["id"].lower() + ".py"))}
    checks = [{"property": p["id"],
               "quick_cmd": f"./run {p['id']} --tier quick",
               "thorough_cmd": f"./run {p['id']} --tier thorough",
               "technique": p["technique"], "level": "model_checking",
               "level_note": p["note"] or (
                   "Complete within the stated bounds: every state of the bounded "
                   "configuration graph is evaluated on the real code. Trusts the "
                   "reference model (mc/ref.py, validated against exact rational "
                   "arithmetic by setup_cmd), numpy/scipy, and floating point "
                   "tolerances far below any structural error. Says nothing beyond the "
                   "bounds.")}
              for p in P if p["id"] in have]
    man = {"version": 1,
           "setup_cmd": "cd /verif && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m mc.ref",
           "checks": checks,
           "not_applicable": NOT_APPLICABLE + [
               {"property": p["id"], "reason": "no check built yet"}
               for p in P if p["id"] not in have],
           "notes": "No hooks: the checks drive the public API of /repo's working tree."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")
    try:
        import jsonschema
    except ImportError:
        return
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))


if __name__ == "__main__":
    main()
