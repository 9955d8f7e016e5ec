"""Writes /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json, os
P = []
TA = "tensap/tensor_algebra/tensors/"
FT, CT, ST, DT, TT, TR = [TA + x for x in ("full_tensor.py", "canonical_tensor.py", "sparse_tensor.py", "diagonal_tensor.py", "tree_based_tensor.py", "dimension_tree.py")]
TRUNC = "tensap/tensor_algebra/tools/truncator.py"
MI = "tensap/tools/multi_indices.py"
UT = "tensap/tools/utils.py"
GR = "tensap/tools/grids.py"
TZ = "tensap/functions/tensorizer.py"
B = "tensap/approximation/bases/"
TL = "tensap/approximation/tensor_approximation/tensor_learning/"
PCA = "tensap/approximation/tensor_approximation/principal_component_analysis/"
LL = "tensap/approximation/learning/"
M = "tensap/functions/measures/"

def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Tensor algebra means the same in every format",
  "For every tensor format (full, canonical, sparse, diagonal, tree-based) and every algebraic operation it offers - sum, difference, negation, scaling, entrywise product, Kronecker product, concatenation, transposition, squeezing, sub-tensor extraction, reductions, products with vectors, matrices and other tensors - the result represents exactly the multi-dimensional array obtained by applying that operation to the arrays the operands represent, with the right order and shape. This holds for every order, shape, rank, choice of modes and sequence of operations, including order-one tensors, singleton modes and zero tensors.",
  ["inputs", "programs"], "all tensors of any order/shape/rank in any format, all mode selections and permutations, all finite sequences of operations",
  "The four unit tests check tool functions only; tutorials run a few operations on random tensors and assert nothing, so a wrong entry, a wrong mode or a wrong shape passes.",
  [FT, CT, ST, DT, TT], [("per-format implementations of each operation", "tensap/tensor_algebra/tensors/*.py")],
  ["results of the public methods and operators, read through their represented array"])
p("C02", "Converting between tensor formats preserves the tensor",
  "Converting a tensor from one format to another (to the full, sparse, canonical, diagonal or tree-based format, from order-two tensors or tensor-train cores to trees, and activating or deactivating nodes of a tree-based tensor) yields an object representing the same array with the same shape. A conversion followed by its inverse gives back an equal tensor.",
  ["inputs", "configurations"], "all tensors, trees, sets of active nodes, ranks and shapes",
  "No test compares a converted tensor with the original one.",
  [FT, CT, ST, DT, TT], [("full/sparse/canonical_tensor/tree_based_tensor/tensor_train/activate_nodes/inactivate_nodes", "tensap/tensor_algebra/tensors/*.py")])
p("C03", "Entry, partial and diagonal evaluation return the entries",
  "Evaluating a tensor of any format at a list of multi-indices, at indices along a subset of its modes, or along the diagonal of all or some modes returns exactly the corresponding entries (or slices) of the represented array, in the order requested and with the remaining modes in their original order.",
  ["inputs"], "all tensors in all formats, all index lists and mode subsets",
  "The tutorials evaluate at a few points without comparing values; partial evaluation on several modes is never run.",
  [FT, CT, ST, DT, TT], [("eval_at_indices, eval_diag, sub_tensor", "tensap/tensor_algebra/tensors/*.py")])
p("C04", "Operations never alter their operands or arguments",
  "Except for the operations documented as working in place, no operation on tensors, dimension trees, multi-index sets, grids, bases or truncation tools changes its operands or the arguments it is given, and no later operation on a result changes the objects it was computed from. Consequently the outcome of an operation does not depend on which operations were applied before to the same objects.",
  ["histories", "programs"], "all finite sequences of library operations over a pool of shared objects",
  "Tests run straight-line programs and never look at an operand again after using it.",
  [FT, CT, ST, DT, TT, TR, TRUNC, MI, GR], [("deep copies at the start of the operations", "all tensor classes, Truncator, MultiIndices")],
  state=[("object pool", "the tensors, trees, index sets, truncators a program holds", "caller")])
p("C05", "Dimension trees are well formed and their queries agree",
  "Every dimension tree that can be built or derived (from an adjacency matrix, linear, balanced, trivial, random, by child insertion, permutation, subtree extraction or re-rooting) is a rooted tree whose leaves carry each dimension exactly once and whose interior nodes carry the union of their children's dimensions. Its parents, children, child numbers, levels, ascendants, descendants, leaves, dimensions and adjacency relation always describe that same tree.",
  ["inputs", "histories"], "all trees and all sequences of tree operations",
  "Tutorials build a handful of fixed trees and check nothing about them.",
  [TR], [("precompute_attributes, update_dims_from_leaves", TR)])
p("C06", "Tree transformations do exactly what they say",
  "Permuting, re-rooting, extracting a subtree or a sub-dimension-tree, adding a child and comparing trees act exactly as on the abstract tree: a permutation moves exactly the requested nodes, re-rooting keeps the undirected structure and the leaf/dimension correspondence, subtrees keep the induced structure, and two trees compare equal exactly when they have the same structure and dimensions.",
  ["inputs", "histories"], "all trees, nodes and permutations, all sequences of transformations",
  "No test calls these transformations with an expected result.",
  [TR], [("swap/permute/sub_dimension_tree/sub_tree/change_root/add_child/__eq__", TR)])
p("C07", "Inner products and norms agree with the full tensor",
  "Inner products, norms, distances and inner products with respect to a rank-one metric computed in any format equal those of the represented arrays; the inner product is symmetric and bilinear, and the norm is its square root.",
  ["inputs"], "all pairs of tensors of equal shape in any format, any rank and metric matrices",
  "No test compares an inner product or norm computed in a low-rank format with the full one.",
  [FT, CT, ST, DT, TT], [("dot, norm, dot_with_rank_one_metric", "tensap/tensor_algebra/tensors/*.py")])
p("C08", "Orthogonalisation keeps the tensor and delivers orthonormality",
  "Orthogonalising a tensor (as a whole, with respect to one node, or along one mode) leaves the represented array unchanged and makes the announced parts orthonormal. Gramians, matricisations and the singular values reported for every node are those of the corresponding matricisation of the represented array.",
  ["inputs", "configurations"], "all tensors and trees, all nodes, all active-node patterns and ranks, including rank-deficient representations",
  "No test looks at orthogonality flags, factor orthonormality or reported singular values.",
  [FT, CT, TT], [("orth, orth_at_node, gramians, singular_values", TT)])
p("C09", "Truncation respects tolerance and rank bounds",
  "Truncating a tensor with relative tolerance e and maximal rank r returns a tensor within e times the norm of the input whenever r does not bind, never exceeds r (per node when given per node), and chooses for a matrix the smallest rank whose discarded singular values meet the tolerance; with negligible tolerance and no binding bound the tensor is reproduced. The same truncation object gives the same result however often and on whatever it was used before.",
  ["inputs", "configurations", "histories"], "all tensors, trees, tolerances, thresholding kinds, rank bounds and all histories of uses of the truncation object",
  "Tutorials truncate random tensors and print the error without asserting it.",
  [TRUNC], [("svd/hosvd/hsvd/ttsvd rank selection", TRUNC)])
p("C10", "Restructuring a tree-based tensor preserves it",
  "Permuting the nodes or leaves of a tree-based tensor, changing its root, removing superfluous nodes, or letting the library search for a better dimension tree or leaf order yields a tensor representing the same array (up to the requested tolerance for the searches and up to the requested permutation of modes), with a well-formed tree and consistent ranks; the active nodes, active dimensions and ranks it reports are those of the tensors it holds; and a search never returns a more expensive representation than it started from.",
  ["inputs", "histories"], "all tree-based tensors, permutations, roots and sequences of restructurings, all seeds of the random search",
  "One tutorial runs a tree optimisation and asserts nothing.",
  [TT, TR], [("permute_nodes, permute_leaves, change_root, remove_unique_children, optimize_*", TT)])
p("C11", "Parameter gradients are exact partial derivatives",
  "The gradient of a canonical or tree-based tensor, or of the functional tensor built on it, with respect to one of its parameters is the exact linear map giving the tensor (or its evaluations) as a function of that parameter alone: applying it to the current parameter reproduces the tensor, and applying it to another parameter gives the tensor with that parameter substituted. For a canonical tensor the factor parameter is the weighted factor (weights absorbed, core of ones).",
  ["inputs", "configurations"], "all tensors, all parameters/nodes, all evaluation points and bases",
  "Alternating minimisation runs in tutorials, where a wrong gradient only slows or degrades convergence, which is not asserted.",
  [CT, TT, "tensap/functions/functional_tensor.py"], [("parameter_gradient_eval_diag, parameter_gradient_eval", TT)])
p("C12", "Multi-index sets obey set algebra and lattice definitions",
  "Operations on sets of multi-indices - union, intersection, difference, translation, removal, projection, sorting, equality and inclusion, margin, reduced margin, maximal elements, downward-closed and envelope tests and closures - give exactly the sets their definitions over the componentwise order prescribe.",
  ["inputs", "histories"], "all finite sets of multi-indices in any dimension and all sequences of operations",
  "Tests check one product set and one bound; margins and closures are never compared with a definition.",
  [MI], [("MultiIndices set operations", MI)])
p("C13", "Generated multi-index sets contain exactly what they define",
  "The generators of multi-index sets (bounded by p-norm, weighted norm, hyperbolic crosses, product sets, bounded boxes, low-order interactions) return exactly the multi-indices satisfying the defining inequality, once each, for every dimension, norm, bound and weight.",
  ["inputs"], "all dimensions, norms p>0 including infinity, bounds and weights",
  "Tests check two cardinalities for fixed parameters.",
  [MI, UT], [("with_bounded_norm, with_bounded_weighted_norm, hyperbolic_cross_set, weighted_hyperbolic_cross_set, product_set, bounded_by, low_order_interactions", MI)])
p("C14", "Index encodings and tensorisation are bijective",
  "Conversions between flat indices and multi-indices, between integers and base-b digits, and between a point of an interval and its tensorised coordinates are mutually inverse and order-consistent, for all shapes, bases, resolutions and orderings. A function and its tensorisation take the same values at corresponding points.",
  ["inputs", "configurations"], "all shapes, bases, resolutions, dimensions and orderings",
  "One unit test covers a few integers; tutorials never check round trips.",
  [MI, UT, TZ, "tensap/functions/tensorized_function.py"], [("sub2ind/ind2sub, integer2baseb/baseb2integer, Tensorizer.map/inverse_map", TZ)])
p("C15", "Tensor grids enumerate the right points",
  "A full or sparse tensor-product grid contains exactly the points selected from its one-dimensional grids, in the documented order, its size, shape and evaluation at indices agree with that enumeration, and evaluating a function on it gives a tensor whose entry at an index is the function value at that grid point.",
  ["inputs"], "all grids, dimensions and index sets",
  "Grids are only used, never compared with an enumeration.",
  [GR, "tensap/functions/function.py"], [("FullTensorGrid, SparseTensorGrid, eval_on_tensor_grid", GR)])
p("C16", "Greedy magic-point selection follows its definition",
  "The greedy selection of magic points from a matrix of evaluations picks at each step a row (and, when not prescribed, a column) of maximal absolute residual of the current interpolation; the selected square submatrix is invertible, no index is repeated, and the interpolation built on the selected points reproduces the functions it was built from.",
  ["inputs"], "all matrices of full column rank and all prescribed orderings",
  "Used in tutorials only, with no assertion on the selected indices.",
  ["tensap/linear_algebra/magic_indices.py", B + "functional_basis.py", "tensap/approximation/tools/interpolation_points_feature_map.py"], [("magic_indices, magic_points", "tensap/linear_algebra/magic_indices.py")])
p("C17", "Polynomial families are orthonormal and self-consistent",
  "Every orthonormal polynomial family (Legendre, Hermite, shifted, discrete, empirical) is orthonormal with respect to its measure, has exact degrees with positive leading coefficients, and its coefficients, values, derivatives, moments and roots describe the same polynomials, for every degree and evaluation point.",
  ["inputs", "configurations"], "all degrees, families, measures and points",
  "Tutorials use the families without comparing a value.",
  ["tensap/functions/polynomials/orthonormal_polynomials.py", "tensap/functions/polynomials/polynomials.py"], [("three-term recurrences", "tensap/functions/polynomials/orthonormal_polynomials.py")])
p("C18", "Functional bases and tensors evaluate what they represent",
  "A function represented by coefficients on a (product, sparse, sub-, user-defined) basis, or by a tensor on product bases, takes at every point the value of the corresponding linear combination of products of basis functions, for scalar and vector outputs; its derivatives, partial evaluations, means, variances, expectations, norms and inner products are those of that combination, and interpolation or projection of a function of the represented space returns the function itself.",
  ["inputs", "configurations"], "all bases, coefficients, dimensions, index sets and points",
  "Tutorials evaluate approximations with random sampling error and assert nothing.",
  [B + "functional_basis.py", B + "functional_bases.py", B + "functional_basis_array.py", B + "sparse_tensor_product_functional_basis.py", B + "full_tensor_product_functional_basis.py", B + "sub_functional_basis.py", "tensap/functions/functional_tensor.py"], [("eval, interpolate, projection, conditional_expectation, mean, variance", B + "functional_basis_array.py")])
p("C19", "Random variables and measures are consistent descriptions of a law",
  "For every measure and random variable, the support, total mass, density, distribution function, quantile function, mean, variance, moments, shifts, discretisations, marginals, products and permutations describe one and the same law: quantiles invert the distribution function, discrete distribution functions sum the weights, transfers preserve probabilities, and products factorise.",
  ["inputs", "configurations"], "all parameters, points, levels and components",
  "No test compares any statistic with its definition.",
  [M + "discrete_random_variable.py", M + "random_variable.py", M + "random_vector.py", M + "product_measure.py", M + "discrete_measure.py", M + "uniform_random_variable.py", M + "normal_random_variable.py", M + "lebesgue_measure.py", M + "random_multi_indices.py"], [("cdf/icdf/mean/var/moment/transfer/marginal", M + "random_variable.py")])
p("C20", "Integration rules are exact where they promise to be",
  "An n-point Gauss rule integrates exactly every polynomial of degree at most 2n-1 against its measure, with positive weights summing to the mass and nodes in the support; composite and tensor-product rules combine points and weights consistently, so that integrals of products factorise and pieces add up.",
  ["inputs", "configurations"], "all point numbers, measures, dimensions, knots and integrands of admissible degree",
  "Gauss rules feed tutorials whose results are not compared with exact integrals.",
  ["tensap/approximation/integration/integration_rules.py", M + "random_variable.py", M + "product_measure.py"], [("gauss_integration_rule, tensorize, integration_rule", "tensap/approximation/integration/integration_rules.py")])
p("C21", "Penalised model selection returns true minimisers",
  "Given complexities and risks of a family of models, the model selected for each penalty minimises risk plus penalty times complexity, the reported penalty path lists exactly the penalties at which the selected model changes, and the slope heuristic selects the model its definition prescribes.",
  ["inputs"], "all finite families of models with any complexities, risks and penalty shapes",
  "Used in one tutorial without assertion.",
  ["tensap/approximation/tools/model_selection.py"], [("lambda_path, m_lambda, slope_heuristic", "tensap/approximation/tools/model_selection.py")])
p("C22", "Least-squares learning solves its problem and estimates its error",
  "The least-squares solver returns the minimiser of the empirical risk, its reported leave-one-out (or k-fold) error equals the one obtained by actually refitting without the left-out data, its basis selection returns the candidate of smallest estimated error among the proposed supports, and a solver reused on new data behaves as a fresh one.",
  ["inputs", "histories"], "all design matrices, outputs, weights, solvers, candidate supports and reuse histories",
  "Tutorials train models on random data; neither solutions nor error estimates are compared with a refit.",
  [LL + "linear_model_learning_square_loss.py", LL + "linear_model_learning.py", LL + "loss_functions.py"], [("_solve_ols, _compute_cv_error, _select_optimal_path", LL + "linear_model_learning_square_loss.py")])
p("C23", "Rank adaptation returns the iterate it reports",
  "The adaptive learning loop stops exactly when its documented criteria say so (iteration budget, error below tolerance, stagnation, early stopping, infinite error), the returned function is the iterate whose errors are reported, all reported sequences have one entry per kept iteration in order, and model selection returns the stored iterate with the smallest selected error.",
  ["histories", "configurations", "fault_sequences"], "all sequences of training and test errors (including infinite and undefined ones), all option combinations",
  "Tutorials follow one or two error sequences; early stopping after a worse iterate, failing iterates and model selection among them are not asserted.",
  [TL + "tensor_learning.py"], [("_solve_adaptation, solve", TL + "tensor_learning.py")])
p("C24", "Tensor approximation from samples recovers low-rank tensors",
  "The principal-component algorithms, given only an entry oracle, return a tensor of the requested format that equals the target whenever its ranks are attainable, never exceed the prescribed ranks, report exactly the number of oracle evaluations they made, and only query indices inside the tensor's shape.",
  ["inputs", "configurations"], "all tensors of low rank, trees, active-node patterns, tolerances, rank bounds and sampling options",
  "Tutorials run a few functions and print errors; the number of evaluations and the bounds are not asserted.",
  [PCA + "tensor_principal_component_analysis.py", PCA + "functional_tensor_principal_component_analysis.py"], [("alpha_principal_components, hopca, tucker/tt/tree_based_approximation", PCA + "tensor_principal_component_analysis.py")])
p("C25", "Splines and piecewise polynomials satisfy their definitions",
  "B-spline bases are nonnegative, locally supported, sum to one on their interval and have consistent derivatives; dilated B-splines are the dilates and translates of the cardinal spline; piecewise polynomial bases are supported element by element with the prescribed degrees, are orthonormal, and their interpolation points lie inside the elements and are unisolvent.",
  ["inputs", "configurations"], "all knot sequences, degrees, levels, dilation bases and evaluation points",
  "One tutorial plots them; no value is asserted.",
  [B + "BSplines_functional_basis.py", B + "piecewise_polynomial_functional_basis.py"], [("eval, eval_derivative", B + "BSplines_functional_basis.py")])
p("C26", "Function wrappers are faithful whatever was evaluated before",
  "A wrapped function (user-defined, stored, partially evaluated, compositional) returns at every point the value of the underlying function, in the order requested and with the declared output shape, independently of the points evaluated before and of whether stored values are reused; stored points are not evaluated again. The reported errors of one function against another are the relative errors over the sample.",
  ["inputs", "histories"], "all functions, output shapes and all sequences of evaluation requests with repeated and new points",
  "No test evaluates a storing function twice.",
  ["tensap/functions/function.py", "tensap/functions/user_defined_function.py", "tensap/functions/compositional_model_function.py"], [("store_eval, partial_evaluation, eval", "tensap/functions/function.py")],
  state=[("store", "points and values evaluated so far", "tensap/functions/function.py")])
p("C27", "Alternating minimisation never loses its iterates",
  "Alternating minimisation visits every active parameter in the announced order at each sweep, solves each subproblem on the current values of all others, keeps one record per sweep, stops exactly on stagnation, small test error, failed subproblem or exhausted budget, and does not increase the empirical risk when subproblems are solved exactly; data representable in the model class with enough ranks is recovered.",
  ["histories", "configurations", "fault_sequences"], "all data, trees, ranks, options, sweep numbers and subproblem outcomes",
  "Tutorials print the errors reached; the sequence of subproblems and the recorded histories are not asserted.",
  [TL + "tensor_learning.py", TL + "canonical_tensor_learning.py", TL + "tree_based_tensor_learning.py"], [("_solve_standard, prepare_alternating_minimization_system, set_parameter", TL + "tensor_learning.py")])
p("C28", "Ranks, admissibility and complexity measures are exact",
  "The ranks, representation and storage complexities, sparsity-aware parameter counts and admissibility verdicts reported for a tensor are those of its actual data; rank vectors proposed by the library (admissible corrections, rank enrichments) are admissible, never smaller than the current ranks, and only raise ranks of the nodes announced: an enrichment raises every node that can be raised and whose smallest singular value reaches the prescribed fraction of the largest one, whenever that is admissible.",
  ["inputs", "configurations"], "all trees, active-node patterns, shapes and rank vectors",
  "No test asserts a complexity, an admissibility verdict or an enrichment.",
  [TT, FT, CT, ST, DT, TL + "tree_based_tensor_learning.py"], [("storage, sparse_storage, nb_parameters, is_admissible_rank, make_ranks_admissible, enriched_edges_to_ranks_random", TT)])
p("C29", "Density estimation solves and scores its empirical problem",
  "The linear density estimator returns the minimiser of the empirical contrast, its reported leave-one-out risk equals the one computed by actually leaving each sample out, and its sparse and path-based selections return the candidate support of smallest estimated risk.",
  ["inputs"], "all orthonormal basis evaluations, samples and candidate supports",
  "The density tutorial is excluded from the reliable tests and asserts nothing.",
  [LL + "linear_model_learning_density_l2.py"], [("_solve_standard, _solve_regularized, _select_optimal_path", LL + "linear_model_learning_density_l2.py")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
