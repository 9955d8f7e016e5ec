"""C04: operations never alter their operands or arguments."""
import copy
import hashlib

import numpy as np
import tensap

import formats as F
import vp

N = 3  # every mode has N entries

ATTRS = {
    "FullTensor": ["data", "shape"],
    "SparseTensor": ["data", "indices", "shape", "order"],
    "CanonicalTensor": ["space", "core", "shape", "order"],
    "DiagonalTensor": ["data", "order", "shape"],
    "TreeBasedTensor": ["tensors", "tree", "ranks", "shape", "order", "is_active_node", "is_orth", "orth_node"],
    "DimensionTree": ["dim2ind", "adjacency_matrix", "dims", "level", "nb_nodes", "root", "is_leaf", "arity", "nodes_indices"],
    "MultiIndices": ["array"],
    "Truncator": ["tolerance", "max_rank", "thresholding_type", "thresholding_parameter"],
    "FullTensorGrid": ["grids", "shape", "dim"],
    "SparseTensorGrid": ["grids", "shape", "dim", "indices"],
    "PolynomialFunctionalBasis": ["indices", "is_orthonormal", "measure"],
    "SubFunctionalBasis": ["underlying_basis", "basis", "is_orthonormal", "measure"],
    "FunctionalBases": ["bases", "measure"],
    "FullTensorProductFunctionalBasis": ["bases", "measure", "is_orthonormal"],
    "SparseTensorProductFunctionalBasis": ["bases", "measure", "is_orthonormal", "indices"],
    "FunctionalBasisArray": ["data", "basis", "shape"],
    "FunctionalTensor": ["tensor", "bases", "fdims", "measure"],
    "ProductMeasure": ["measures"],
    "RandomVector": ["random_variables"],
    "UniformRandomVariable": ["inf", "sup"],
    "NormalRandomVariable": ["mu", "sigma"],
    "LebesgueMeasure": ["a", "b", "inf", "sup"],
    "DiscreteRandomVariable": ["values", "probabilities"],
    "DiscreteMeasure": ["values", "weights"],
}


def state(x):
    """Observable state of an object, as nested tuples."""
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return state(x.item())
    if isinstance(x, np.ndarray) and x.dtype != object:
        return ("a", x.shape, np.ascontiguousarray(x).astype(float).tobytes() if x.dtype != bool else x.tobytes())
    if isinstance(x, (list, tuple, np.ndarray)):
        return ("l", tuple(state(v) for v in x))
    if isinstance(x, (bool, np.bool_, int, np.integer, float, np.floating)):
        return float(x)
    if x is None or isinstance(x, str):
        return x
    name = type(x).__name__
    if name in ATTRS:
        return (name, tuple((a, state(getattr(x, a))) for a in ATTRS[name] if hasattr(x, a)))
    return name


PTS = np.random.RandomState(7).rand(4, 3) * 2 - 1


def flat(v, depth=0):
    """Numbers describing a result (independent of any choice of basis)."""
    if v is None or isinstance(v, str):
        return []
    if isinstance(v, np.ndarray) and v.dtype == object and v.ndim == 0:
        return flat(v.item())
    if isinstance(v, (bool, np.bool_, int, np.integer, float, np.floating)):
        return [float(v)]
    if isinstance(v, (tensap.FullTensor, tensap.SparseTensor, tensap.CanonicalTensor, tensap.TreeBasedTensor, tensap.DiagonalTensor)):
        return list(np.ravel(F.dense(v), order="F"))
    if isinstance(v, tensap.DimensionTree):
        d = F.dump_tree(v)
        return [float(k) for k in d["parent"]] + [float(k) for k in d["dims"]]
    if isinstance(v, tensap.MultiIndices):
        return [float(k) for k in np.ravel(v.array)]
    if isinstance(v, (tensap.FullTensorGrid, tensap.SparseTensorGrid)):
        return list(np.ravel(v.array()))
    if isinstance(v, (tensap.PolynomialFunctionalBasis, tensap.SubFunctionalBasis)):
        return list(np.ravel(v.eval(PTS[:, 0])))
    if isinstance(v, tensap.FunctionalBases):
        return [w for b in v.bases for w in flat(b)]
    if isinstance(v, tensap.FunctionalBasis):
        return list(np.ravel(v.eval(PTS[:, : v.ndim()])))
    if isinstance(v, (tensap.FunctionalBasisArray, tensap.FunctionalTensor)):
        if isinstance(v, tensap.FunctionalTensor):
            return flat(v.tensor)
        return list(np.ravel(v.data))
    if isinstance(v, np.ndarray) and v.dtype != object:
        return [float(k) for k in np.ravel(v)]
    if hasattr(v, "toarray"):
        return [float(k) for k in np.ravel(v.toarray())]
    if isinstance(v, (list, tuple, np.ndarray)):
        return [w for k in v for w in flat(k, depth + 1)]
    if isinstance(v, tensap.Measure):
        return [float(v.ndim())] + flat(np.asarray(v.support(), dtype=float))
    if hasattr(v, "points") and hasattr(v, "weights"):
        return flat(v.weights)
    return []


def same(x, y):
    """Binary operations of tree-based tensors take the same tree; their
    results are kept small."""
    if not isinstance(x, tensap.TreeBasedTensor):
        return True
    return x.tree == y.tree and x.storage() + y.storage() < 1500 and x.storage() * y.storage() < 60000


def outcome(v):
    f = flat(v)
    s = float(sum((i % 7 + 1) * x for i, x in enumerate(f))) if len(f) > 40 else 0.0
    return [len(f), vp.fix(s, 10**4)] + [vp.fix(x, 10**4) for x in f[:40]]


def ops():
    T = {"tucker.full": lambda x: x.full()}

    def common(k):
        T[k + ".add"] = lambda x, y: x + y
        T[k + ".sub"] = lambda x, y: x - y
        T[k + ".neg"] = lambda x: -x
        T[k + ".scale"] = (lambda x: x * 2) if k in ("full", "tbt") else (lambda x: x + x)
        T[k + ".dot"] = lambda x, y: x.dot(y)
        T[k + ".norm"] = lambda x: x.norm()
        T[k + ".full"] = lambda x: x.full()
        T[k + ".numpy"] = lambda x: x.numpy()
        T[k + ".storage"] = lambda x: [x.storage(), x.sparse_storage()]

    for k in ("full", "sparse", "canon", "tbt", "diag"):
        common(k)
    T["tbt.add"] = lambda x, y: x + y if same(x, y) else x
    T["tbt.sub"] = lambda x, y: x - y if same(x, y) else x
    T["tbt.dot"] = lambda x, y: x.dot(y) if same(x, y) else 0
    for k in ("full", "sparse", "canon", "tbt"):
        T[k + ".tvp"] = lambda x, v: x.tensor_vector_product(v)
        T[k + ".tmp"] = lambda x, m: x.tensor_matrix_product(m)
        T[k + ".tmp1"] = lambda x, m: x.tensor_matrix_product(m[1], 1)
        T[k + ".tmpdiag"] = lambda x, m: x.tensor_matrix_product_eval_diag(m)
        T[k + ".at"] = lambda x, i: x.eval_at_indices(i) if hasattr(x, "eval_at_indices") else 0
    for k in ("full", "tbt", "sparse"):
        T[k + ".dotmetric"] = lambda x, y, m: x.dot_with_rank_one_metric(y, m) if same(x, y) else 0
        T[k + ".except"] = lambda x, y, m: x.tensordot_matrix_product_except_dim(y, m, 1) if same(x, y) else 0
        T[k + ".kron"] = lambda x, y: x.kron(y) if same(x, y) else 0
        T[k + ".cat"] = lambda x, y: x.cat(y) if same(x, y) else 0
    full = {
        "sparse": lambda x: x.sparse(), "tree": lambda x: x.tree_based_tensor(), "hadamard": lambda x, y: x.hadamard_product(y),
        "transpose": lambda x, p: x.transpose(p), "itranspose": lambda x, p: x.itranspose(p), "reshape": lambda x: x.reshape([N * N, N]),
        "matricize": lambda x, d: x.matricize(d), "reducesum": lambda x, d: x.reduce_sum(d), "reducemean": lambda x, d: x.reduce_mean(d),
        "tensordot": lambda x, y, d: x.tensordot(y, d, d), "tdevaldiag": lambda x, y: x.tensordot_eval_diag(y, [2], [2], [0, 1], [0, 1]),
        "outerdiag": lambda x, y: x.outer_product_eval_diag(y, [1], [1]), "evaldiag": lambda x: x.eval_diag(), "orth": lambda x: x.orth(1)[0].norm(),
        "pca": lambda x: x.matricize(0).principal_components(2)[1], "apca": lambda x, d: x.alpha_principal_components(d, 1)[1], "sv": lambda x: x.matricize(0).singular_values(),
        "subtensor": lambda x: x.sub_tensor([0, 1], [2], [1, 0]), "copy": lambda x: tensap.FullTensor(x), "diagmat": lambda x, m: x.tensor_diagonal_matrix_product([np.diag(v) for v in m]),
    }
    tbt = {
        "hadamard": lambda x, y: x.hadamard_product(y) if same(x, y) else x, "reducesum": lambda x, d: x.reduce_sum(d), "orth": lambda x: x.orth(), "orthat": lambda x: x.orth_at_node(int(x.active_nodes[-1])),
        "gramians": lambda x: [np.trace(g) for g in x.gramians()[0] if g is not None], "gramianat": lambda x: [np.trace(g) for g in x.gramians(int(x.active_nodes[-1]))[0] if g is not None and np.ndim(g) == 2],
        "sv": lambda x: [np.sum(np.asarray(s.data if hasattr(s, "data") else s)) for s in x.singular_values() if s is not None], "rank": lambda x: x.rank.size,
        "reprank": lambda x: x.representation_rank, "admissible": lambda x: x.is_admissible_rank(), "sparsestorage": lambda x: x.sparse_leaves_storage(),
        "changeroot": lambda x: x.change_root(int(x.active_nodes[-1])) if x.tree.children(x.tree.root).size > 1 else 0, "permcost": lambda x: x.nodes_permutation_cost(int(x.tree.dim2ind[0])),
        "opttree": lambda x: x.optimize_dimension_tree(1e-10, 3), "permnodes": lambda x: x.permute_nodes([int(x.tree.dim2ind[0]), int(x.tree.dim2ind[2])], 1e-10),
        "optleaves": lambda x: x.optimize_leaves_permutations(1e-10, 3), "permleaves": lambda x, p: x.permute_leaves(p, 1e-10),
        "inactivate": lambda x: x.inactivate_nodes([int(x.tree.dim2ind[0])]), "activate": lambda x: x.activate_nodes([int(v) for v in x.tree.dim2ind]),
        "evaldiag": lambda x: x.eval_diag(), "squeeze": lambda x: x.squeeze(), "remove": lambda x: x.remove_unique_children(),
        "grad": lambda x, m: x.tensor_matrix_product(m).parameter_gradient_eval_diag(int(x.active_nodes[-1]), m), "dmrg": lambda x, m: x.tensor_matrix_product(m).parameter_gradient_eval_diag_dmrg(int([a for a in x.active_nodes if a != x.tree.root][-1]), m) if x.active_nodes.size > 2 else 0, "copy": lambda x: tensap.TreeBasedTensor(x),
        "div": lambda x: x / 2, "diagmat": lambda x, m: x.tensor_diagonal_matrix_product([np.diag(v) for v in m]), "like": lambda x, t: tensap.TreeBasedTensor.ones(t, 2, [N] * 3),
    }
    for k, f in full.items():
        T["full." + k] = f
    for k, f in tbt.items():
        T["tbt." + k] = f
    T.update({
        "canon.tree": lambda x, t: x.tree_based_tensor(t), "canon.orth": lambda x: x.orth(), "diag.tree": lambda x, t: x.tree_based_tensor(t), "diag.sparse": lambda x: x.sparse(),
        "diag.orth": lambda x: x.orth(), "sparse.transpose": lambda x, p: x.transpose(p), "sparse.reshape": lambda x: x.reshape([N * N, N]),
        "canon.reducesum": lambda x, d: x.reduce_sum(d), "canon.grad": lambda x, m: x.tensor_matrix_product(m).parameter_gradient_eval_diag(1, m), "canon.rep": lambda x: x.representation_rank(),
        "tr.hosvd": lambda t, x: t.hosvd(x), "tr.hsvd": lambda t, x, d: t.hsvd(x, d), "tr.hsvdtree": lambda t, x: t.hsvd(x), "tr.ttsvd": lambda t, x: t.ttsvd(x),
        "tr.truncate": lambda t, x: t.truncate(x), "tr.svd": lambda t, x: t.svd(x.matricize(0)),
        "dt.permute": lambda t, p: t.permute(p), "dt.ipermute": lambda t, p: t.ipermute(p), "dt.changeroot": lambda t: t.change_root(int(t.dim2ind[0])) if t.children(t.root).size > 1 else 0,
        "dt.addchild": lambda t: t.add_child(int(t.root)), "dt.sub": lambda t: t.sub_dimension_tree(int(t.children(t.root)[0])),
        "dt.queries": lambda t: [list(np.ravel(f(n))) for n in range(1, t.nb_nodes + 1) if n != t.root for f in (t.parent, t.ascendants, t.descendants, t.child_number)],
        "dt.eq": lambda t, u: [t == u, t != u], "dt.layout": lambda t: t.tree_layout(), "dt.withdims": lambda t, d: t.node_with_dims(d),
        "mi.add": lambda a, b: a.add_indices(b), "mi.remove": lambda a, b: a.remove_indices(b), "mi.intersect": lambda a, b: a.intersect_indices(b), "mi.product": lambda a, b: a.product(b) if a.cardinal() * b.cardinal() < 400 else 0,
        "mi.keepdims": lambda a, d: a.keep_dims(d), "mi.removedims": lambda a, d: a.remove_dims(d), "mi.sort": lambda a: a.sort(), "mi.norms": lambda a: a.sort_by_norm(1), "mi.margin": lambda a: a.get_margin(),
        "mi.reduced": lambda a: a.get_reduced_margin(), "mi.maximal": lambda a: a.get_maximal_indices(), "mi.closed": lambda a: a.is_downward_closed(), "mi.sub2ind": lambda a: a.sub2ind(np.max(a.array, 0) + 1) if a.cardinal() else 0,
        "mi.shift": lambda a: a + 1, "mi.envelope": lambda a: a.envelope(np.exp(-np.sum(a.array, 1))), "mi.le": lambda a, b: a <= tensap.MultiIndices(b.array[:1]) if b.cardinal() else 0, "mi.keep": lambda a: a.keep_indices(np.arange(a.cardinal())), "mi.get": lambda a: a.get_indices(0) if a.cardinal() else 0,
        "mi.ind2sub": lambda p: tensap.MultiIndices.ind2sub([2, 2, 2], p), "mi.bounded": lambda v: tensap.MultiIndices.bounded_by(np.asarray(v[0]) * 0 + 2),
        "grid.new": lambda g: tensap.FullTensorGrid(g), "grid.newsparse": lambda g, m: tensap.SparseTensorGrid(g, m), "grid.array": lambda g: g.array(), "grid.at": lambda g, i: g.eval_at_indices(i),
        "grid.queries": lambda g: [g.size, g.ndim(), g.multi_indices()],
        "pb.eval": lambda b, x: b.eval(x), "pb.der": lambda b, x: b.eval_derivative(1, x), "pb.derivative": lambda b: b.derivative(1), "pb.kron": lambda b, c: b.kron(c), "pb.mean": lambda b: b.mean(), "pb.gram": lambda b: b.gram_matrix(),
        "pb.interp": lambda b, x: b.interpolate(np.cos(x[: b.cardinal()]), x[: b.cardinal()]), "pb.magic": lambda b, x: b.magic_points(x)[1], "pb.orth": lambda b: b.orthonormalize(), "pb.christoffel": lambda b: b.cardinal(),
        "bases.new": lambda a, b: tensap.FunctionalBases([a, b]), "bases.eval": lambda b, x: b.eval(x), "bases.der": lambda b, x: b.eval_derivative([1, 0, 2], x), "bases.derivative": lambda b: b.derivative([1, 0, 1]),
        "bases.transpose": lambda b, p: b.transpose(p), "bases.keep": lambda b, d: b.keep_bases(d), "bases.remove": lambda b, d: b.remove_bases(d), "bases.gram": lambda b: b.gram_matrices(), "bases.mean": lambda b: b.mean(),
        "bases.kron": lambda b, c: b.kron(c), "bases.one": lambda b: b.one(), "bases.interp": lambda b: b.interpolation_points(PTS), "bases.magic": lambda b: b.magic_points(PTS)[1], "bases.ftp": lambda b: tensap.FullTensorProductFunctionalBasis(b),
        "bases.stp": lambda b, m: tensap.SparseTensorProductFunctionalBasis(b, m), "bases.eq": lambda b, c: bool(b == c), "bases.orth": lambda b: b.orthonormalize(),
        "ftp.eval": lambda b, x: b.eval(x), "ftp.mean": lambda b: b.mean(), "ftp.transpose": lambda b, p: b.transpose(p), "ftp.keep": lambda b: b.keep_bases([0, 2]), "ftp.interp": lambda b: b.interpolation_points(PTS)[0],
        "stp.eval": lambda b, x: b.eval(x), "stp.mean": lambda b: b.mean(), "stp.transpose": lambda b, p: b.transpose(p), "stp.keep": lambda b: b.conditional_expectation([0, 2]), "stp.der": lambda b, x: b.eval_derivative([1, 0, 1], x),
        "stp.derivative": lambda b: b.derivative([0, 1, 0]), "stp.path": lambda b: b.adaptation_path(), "stp.keepbases": lambda b, d: b.keep_bases(d).bases, "stp.gram": lambda b: b.gram_matrix(),
        "fba.new": lambda b: tensap.FunctionalBasisArray(np.arange(b.cardinal()) - 1.0, b), "fba.eval": lambda f, x: f(x), "fba.add": lambda f, g: f + g if f.data.shape == g.data.shape else 0, "fba.neg": lambda f: -f, "fba.scale": lambda f: f * 2,
        "fba.norm": lambda f: f.norm(), "fba.mean": lambda f: f.mean(), "fba.var": lambda f: f.variance(), "fba.cond": lambda f: f.conditional_expectation([0, 1]).data, "fba.der": lambda f, x: f.eval_derivative([1, 0, 0], x),
        "fba.dot": lambda f, g: f.dot(g) if f.data.shape == g.data.shape else 0, "fba.derivative": lambda f: f.derivative([1, 0, 0]),
        "ft.new": lambda t, b: tensap.FunctionalTensor(t, b).eval(PTS), "ft.newfull": lambda t, b: tensap.FunctionalTensor(t, b), "ft.eval": lambda f, x: f(x), "ft.mean": lambda f: f.mean(), "ft.der": lambda f, x: f.eval_derivative([0, 1, 0], x),
        "ft.grid": lambda f, g: f.eval_on_grid([np.ravel(v) for v in g]), "ft.storage": lambda f: f.storage(), "ft.partial": lambda f, x: f.partial_evaluation([1], x[:2, [1]]).eval(x[:, [0, 2]]) if False else f.storage(),
        "meas.queries": lambda m: [m.mass(), m.ndim(), np.asarray(m.support())], "meas.marginal": lambda m, d: m.marginal(d), "meas.transpose": lambda m, p: m.random_vector().transpose(p), "meas.pdf": lambda m, x: m.random_vector().pdf(x), "meas.gauss": lambda m: m.gauss_integration_rule(2).weights,
    })
    return T


def initial(rng):
    """Two objects of each kind."""
    sh = [N] * 3
    obj = []

    def put(k, v):
        obj.append((k, v))

    def li(v):
        return [int(k) for k in v] if rng.rand() < 0.5 else np.array(v)

    for _ in range(2):
        put("full", F.rfull(rng, sh))
        put("sparse", F.rsparse(rng, sh))
        put("canon", F.rcanonical(rng, sh, 2))
        t = F.rtree(rng, 3)
        b = F.rtreetensor(rng, t, sh)
        u = rng.rand()      # objects with a history: some paths are taken only by orthogonalised tensors
        put("tbt", b.orth() if u < 0.3 else b.orth_at_node(int(b.active_nodes[rng.randint(len(b.active_nodes))])) if u < 0.45 else b)
        put("diag", F.rdiagonal(rng, N, 3))
        put("dt", F.rtree(rng, 3))
        put("mi", tensap.MultiIndices(np.unique(rng.randint(0, 3, (4, 3)), axis=0)))
        put("dcs", tensap.MultiIndices.with_bounded_norm(3, 1, int(rng.randint(1, 3))))
        put("vecs", [rng.randint(-2, 3, N).astype(float) for _ in range(3)])
        put("mats", [rng.randint(-2, 3, (4, N)).astype(float) for _ in range(3)])
        put("mets", [(lambda m: m + m.T + 4 * np.eye(N))(rng.randint(-1, 2, (N, N)).astype(float)) for _ in range(3)])
        put("inds", rng.randint(0, N, (4, 3)))
        put("perm", li(rng.permutation(3)))
        put("dims", li(np.sort(rng.permutation(3)[: rng.randint(1, 3)])))
        put("arrs", [np.linspace(-1, 1, N) + 0.1 * i for i in range(3)])
        put("grid", tensap.FullTensorGrid([np.linspace(-1, 1, N).reshape(-1, 1) for _ in range(3)]))
        leg = tensap.LegendrePolynomials() if rng.rand() < 0.5 else tensap.UniformRandomVariable(-1, 1).orthonormal_polynomials()
        put("pb", tensap.PolynomialFunctionalBasis(leg, range(N)))
        put("bases", tensap.FunctionalBases([tensap.PolynomialFunctionalBasis(tensap.LegendrePolynomials(), range(N)) for _ in range(3)]))
        put("pts", rng.rand(4, 3) * 2 - 1)
        put("pts1", rng.rand(7) * 2 - 1)
        put("meas", tensap.ProductMeasure([tensap.UniformRandomVariable(-1, 1), tensap.NormalRandomVariable(), tensap.UniformRandomVariable(0, 2)]))
    put("tr", tensap.Truncator(1e-10))
    put("tr", tensap.Truncator(0.2, 2))
    return obj


KINDS = ["full", "sparse", "canon", "tbt", "diag", "dt", "mi", "dcs", "vecs", "mats", "mets", "inds", "perm", "dims", "arrs", "grid", "pb", "bases", "pts", "pts1", "meas"] * 2 + ["tr", "tr"]


def run(ctx):
    small = "<<%s>>" % ", ".join('"%s"' % k for k in ["full", "dt", "tr", "tbt"])
    ctx.model("HeapSpec", ["Independent"], ["Stable"], constants=["KINDS <- SmallKinds", "LEN = %d" % ctx.n(2, 2)], spec="Spec")
    progs = ctx.generate("HeapSpec", constants=["KINDS <- AllKinds", "LEN = %d" % ctx.n(12, 14)], init="Init", next_="SimNext", simulate=ctx.n(400, 6000), depth=20)
    T = ops()
    rng = ctx.sub_rng("objects")
    for prog in progs:
        init = initial(rng)
        ctx.observe("program", lambda: execute(ctx, T, init, prog), lambda v: v, sig="program", prog=prog)


def execute(ctx, T, init, prog):
    kinds = [k for k, _ in init]
    assert kinds == KINDS
    pristine = copy.deepcopy([v for _, v in init])
    objs = [v for _, v in init]
    ids = {}

    def fp(v):
        h = hashlib.sha256(repr(state(v)).encode()).hexdigest()
        return ids.setdefault(h, len(ids) + 1)

    fps = [[fp(v) for v in objs]]
    out, alone, again, errs = [], [], [], []

    def call(name, args):
        np.random.seed(12345)
        return T[name](*args)

    for s in prog:
        try:
            v, e = call(s["op"], [objs[a - 1] for a in s["args"]]), ""
            o = outcome(v)
        except vp.Timeout:
            raise
        except Exception as ex:  # noqa
            v, o, e = None, [], ("%s: %s" % (type(ex).__name__, ex))[:200]
        f = [fp(w) for w in objs]
        fps.append(f)
        objs.append(v)
        out.append(o)
        errs.append(e)
        kinds.append("any")
        if e:
            break
        fps[-1] = f + [fp(v)]
    n = len(out)
    # repeated at the end
    for k in range(n):
        s = prog[k]
        try:
            again.append(outcome(call(s["op"], [objs[a - 1] for a in s["args"]])))
        except vp.Timeout:
            raise
        except Exception:  # noqa
            again.append([])
    # alone
    for k in range(n):
        fresh = {}

        def get(r):
            if r not in fresh:
                if r <= len(KINDS):
                    fresh[r] = copy.deepcopy(pristine[r - 1])
                else:
                    p = prog[r - len(KINDS) - 1]
                    fresh[r] = call(p["op"], [get(a) for a in p["args"]])
            return fresh[r]
        try:
            alone.append(outcome(get(len(KINDS) + k + 1)))
        except vp.Timeout:
            raise
        except Exception:  # noqa
            alone.append([])
    fps = [x[: len(KINDS) + i] for i, x in enumerate(fps)]
    return {"prog": prog[:n], "kinds": KINDS + [KIND_OF[s["op"]] for s in prog[:n]], "fps": fps, "out": out, "alone": alone, "again": again, "errs": errs}


def kind_table():
    """Result kinds declared by the specification."""
    import os
    import re
    txt = open(os.path.join(vp.SPEC, "HeapOps.tla")).read()
    res = {n: r for n, r in re.findall(r'O\("([a-z0-9]+\.[a-z0-9]+)", <<[^>]*>>, "([a-z0-9]+)"\)', txt)}
    for k in ("full", "sparse", "canon", "tbt", "diag"):
        for n, r in re.findall(r'O\(k \\o "(\.[a-z0-9]+)", <<[^>]*>>, ([a-z"]+)\)', txt):
            res[k + n] = k if r == "k" else r.strip('"')
    return res


KIND_OF = kind_table()
