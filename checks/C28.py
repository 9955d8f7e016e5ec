"""C28: ranks, admissibility and complexity measures are exact."""
import numpy as np
import tensap

import formats as F
import vp

TBL = tensap.TreeBasedTensorLearning
MS = tensap.ModelSelection


def L(a):
    return [int(v) for v in np.atleast_1d(np.asarray(a))]


def tree_tensor(rng, root_rank=None, dmax=4):
    d = int(rng.randint(1, dmax + 1))
    t = F.rtree(rng, d)
    return F.rtreetensor(rng, t, F.rshape(rng, d, 1, 3, 36), rmax=3, root_rank=root_rank or (1 if rng.rand() < 0.85 else 2),
                         lo=-1 if rng.rand() < 0.5 else -2, hi=1 if rng.rand() < 0.5 else 2)


def measures(ctx, x, how):
    tree = isinstance(x, tensap.TreeBasedTensor)
    wrapped = None
    if tree and how == 1:
        wrapped = tensap.FunctionalTensor(x, [np.eye(int(n)) for n in x.shape])

    def fn():
        y = wrapped if wrapped is not None else x
        v = [y.storage(), (x if wrapped is not None else y).sparse_storage()]
        comp = []
        if tree:
            for fun in ("storage", "sparse_storage", "sparse_leaves_storage"):
                for ty in ("standard", "grassman", "stiefel"):
                    if how == 2:
                        c = MS.complexity([x, x], fun, ty)[1]
                    elif how == 3:
                        c = MS.complexity_tree_based_tensor(y, fun, ty)
                    else:
                        c = MS.complexity(y, fun, ty)
                    comp.append({"fun": fun, "ty": ty, "val": vp.to_int(c)})
            # defaults: number of stored entries, no gauge
            for c in (MS.complexity(y), MS.complexity_tree_based_tensor([y, y])[0], MS.complexity_tree_based_tensor(y), MS.complexity([[x], y])[0][0]):
                comp.append({"fun": "storage", "ty": "standard", "val": vp.to_int(c)})
        return v, comp

    def out(v):
        return {"storage": vp.to_int(v[0][0]), "sparse": vp.to_int(v[0][1]), "comp": v[1],
                "leaves": vp.to_int(x.sparse_leaves_storage()) if tree else 0,
                "ranks": L(x.representation_rank() if callable(x.representation_rank) else x.representation_rank) if hasattr(x, "representation_rank") else [],
                "shape": L(x.shape)}

    ctx.observe("measures", fn, out, x=F.dump(x), sig="measures." + type(x).__name__)


def coefficients(ctx, rng):
    """Storage and complexity of arrays of coefficients on a basis."""
    n, m = int(rng.randint(1, 5)), int(rng.randint(1, 4))
    C = F.rint(rng, (n, m), -1, 1)
    B = tensap.PolynomialFunctionalBasis(tensap.CanonicalPolynomials(), range(n))
    f = tensap.FunctionalBasisArray(C, B, [m] if rng.rand() < 0.5 else m)

    def fn():
        c = MS.complexity_functional_basis_array
        return f.storage(), f.sparse_storage(), [MS.complexity(f), MS.complexity([f, f])[1], c(f), c(f, "storage")], c(f, "sparse_storage")

    ctx.observe("coefficients", fn, lambda v: {"storage": vp.to_int(v[0]), "sparse": [vp.to_int(v[1]), vp.to_int(v[3])], "comp": [vp.to_int(c) for c in v[2]]},
                c=vp.ilist(C.ravel()), sig="measures.FunctionalBasisArray")


def details(d, n):
    res = []
    for v in d:
        res.append([] if v is None else [bool(w) for w in np.atleast_1d(np.asarray(v, dtype=object))])
    return res


def admissible(ctx, rng, x):
    k = rng.randint(4)
    r = np.array(x.ranks)
    if k:
        r = np.where(x.is_active_node, rng.randint(1, 5, r.size) if k < 3 else r + rng.randint(0, 2, r.size), 0)
        if rng.rand() < 0.05 and x.non_active_nodes.size:
            r[x.non_active_nodes[0] - 1] = 1
    arg = None if k == 0 else [r, list(r), tuple(r)][rng.randint(3)]

    def fn():
        a = x.is_admissible_rank() if arg is None else x.is_admissible_rank(arg)
        b, det = x.is_admissible_rank(arg, 2)
        assert bool(a) == bool(b)
        return a, det

    ctx.observe("admissible", fn, lambda v: {"val": bool(v[0]), "details": details(v[1], x.tree.nb_nodes)}, x=F.dump(x), ranks=L(r), sig="admissible")


def made(ctx, rng):
    """A tensor with admissible ranks."""
    for _ in range(50):
        x = tree_tensor(rng, root_rank=1)
        if x.order > 1 and adm(x):
            return x
    return tree_tensor(rng, root_rank=1)


def adm(x):
    tree = x.tree
    s = {int(a): (int(x.shape[list(tree.dim2ind).index(a)]) if a in tree.dim2ind and not x.is_active_node[a - 1] else int(x.ranks[a - 1])) for a in range(1, tree.nb_nodes + 1)}
    for a in range(1, tree.nb_nodes + 1):
        ch = [int(c) for c in tree.children(a)]
        if not ch:
            if x.is_active_node[a - 1] and s[a] > x.shape[list(tree.dim2ind).index(a)]:
                return False
            continue
        g = ch + [a]
        for b in g:
            if x.is_active_node[b - 1] and s[b] > np.prod([s[c] for c in g if c != b]):
                return False
    return True


def make(ctx, rng):
    x = made(ctx, rng)
    if not adm(x):
        return
    add = rng.randint(0, 3, x.tree.nb_nodes) * (rng.rand(x.tree.nb_nodes) < 0.7)
    add[x.tree.root - 1] = 0
    add[~np.array(x.is_active_node, dtype=bool)] = 0
    ask = np.array(x.ranks) + add
    keep = L(ask)
    ctx.observe("make", lambda: TBL.make_ranks_admissible(x, ask), lambda v: {"val": L(v[0]), "nodes": L(v[1]) if np.size(v[1]) else [], "askafter": L(ask)},
                x=F.dump(x), ask=keep, sig="make_ranks_admissible")


def enrich(ctx, rng):
    x = tree_tensor(rng, root_rank=1)
    for _ in range(30):
        if x.order > 1 and all(np.all(np.any(t.data.reshape(-1, t.data.shape[-1]) != 0, axis=0)) for t in x.tensors if t.data.size):
            break
        x = tree_tensor(rng, root_rank=1)
    if x.order == 1:
        return
    add = rng.randint(0, 3, x.tree.nb_nodes)
    add[x.tree.root - 1] = 0
    add[~np.array(x.is_active_node, dtype=bool)] = 0
    ask = np.array(x.ranks) + add
    before = F.dump(x)

    def out(v):
        d = F.dump_tree_tensor(v)
        for t in d["nodes"]:
            t["data"] = [0 for _ in t["data"]]
        return {"y": d, "ranks": L(v.ranks), "xafter": F.dump(x)}

    ctx.observe("enrich", lambda: TBL.enriched_edges_to_ranks_random(x, ask if rng.rand() < 0.5 else ask.tolist()), out, x=before, ask=L(ask), sig="enriched_edges_to_ranks_random")


def saturated(rng):
    """A tensor some nodes of which have the largest rank their children allow."""
    for _ in range(200):
        d = int(rng.randint(3, 5))
        t = F.rtree(rng, d)
        sh = rng.randint(2, 4, d)
        act = F.ractive(rng, t)
        r = np.zeros(t.nb_nodes, dtype=int)
        for lvl in range(int(np.max(t.level)), -1, -1):
            for a in t.nodes_with_level(lvl):
                ch = t.children(a)
                full = int(sh[list(t.dim2ind).index(a)]) if ch.size == 0 else int(np.prod(r[ch - 1]))
                r[a - 1] = full if not act[a - 1] or rng.rand() < 0.5 else rng.randint(1, 4)
        r[t.root - 1] = 1
        if np.max(r) > 6:
            continue
        x = F.rtreetensor(rng, t, sh, act=act, ranks=np.where(act, r, 0))
        if adm(x):
            return x
    return None


def newrank(ctx, rng, corr):
    x = made(ctx, rng) if rng.rand() < 0.5 else saturated(rng)
    if x is None:
        return
    if not adm(x) or x.order == 1 or np.allclose(F.dense(x), 0):
        return
    solver = TBL(x.tree, x.is_active_node, tensap.SquareLossFunction())
    solver.display = False
    solver.rank_adaptation_options["rank_one_correction"] = corr
    solver.rank_adaptation_options["theta"] = float(rng.choice([0.0, 0.0, 0.2, 0.5, 0.8, 1.0]))
    n = 40
    be = [rng.randn(n, int(s)) for s in x.shape]
    solver.bases_eval = be
    y = F.dense(x)
    args = []
    for k, b in enumerate(be):
        args += [b, [50, k]]
    solver.training_data = [None, np.einsum(y, list(range(x.order)), *args, [50]) + rng.randn(n)]
    solver._warnings = {k: False for k in solver._warnings}
    solver._number_of_parameters = x.active_nodes.size
    solver.linear_model_learning = [tensap.LinearModelLearningSquareLoss() for _ in range(x.active_nodes.size)]
    f = tensap.FunctionalTensor(x, be)
    before = F.dump(x)
    theta = solver.rank_adaptation_options["theta"]
    ctx.observe("newrank", lambda: solver.new_rank_selection(f),
                lambda v: {"val": L(v[0]), "nodes": L(v[1]) if np.size(v[1]) else [], "xafter": F.dump(x), "smin": smallest(v[2]), "ok": comparable(v[2], x, theta)},
                x=before, theta=int(round(100 * theta)), sig="new_rank_selection" + (".correction" if corr else ""))


def smallest(t):
    """Smallest singular values of the matricisations (relative to the norm),
    of as many as the representation rank."""
    A = np.asarray(F.dense(t))
    out = []
    for a in range(1, t.tree.nb_nodes + 1):
        if a == t.tree.root or not t.is_active_node[a - 1]:
            out.append(0)
            continue
        dims = [k for k in range(t.order) if t.tree.dim2ind[k] in np.append(t.tree.descendants(a), a)]
        rest = [k for k in range(A.ndim) if k not in dims]
        M = np.transpose(A, dims + rest).reshape(int(np.prod([A.shape[k] for k in dims])), -1)
        sv = np.linalg.svd(M, compute_uv=False)
        r = int(t.ranks[a - 1])
        out.append(int(round(1e6 * (sv[r - 1] if r <= sv.size else 0) / np.linalg.norm(A))))
    return out


def comparable(t, x, theta):
    """No singular value is at the limit of a decision; no loss of rank."""
    s = smallest(t)
    act = [a for a in range(t.tree.nb_nodes) if t.is_active_node[a] and a + 1 != t.tree.root]
    v = [s[a] for a in act]
    if min(v + [10 ** 6]) < 1000:
        return False
    return all(abs(v[i] - theta * v[j]) > 20 for i in range(len(v)) for j in range(len(v)) if i != j)


def counting(shape):
    return np.arange(int(np.prod(shape)), dtype=float).reshape(shape, order="F")


def create(ctx, rng):
    """Tensors made from a tree, ranks, sizes and active nodes."""
    kind = ["create", "create", "ones", "zeros", "rand", "randn"][rng.randint(6)]
    fmt = ["tree", "tree", "tree", "tree", "full", "canonical", "diagonal"][rng.randint(7)]
    d = int(rng.randint(2, 6))
    shape = [int(v) for v in rng.randint(1, 4, d)]
    cls = {"tree": tensap.TreeBasedTensor, "full": tensap.FullTensor, "canonical": tensap.CanonicalTensor, "diagonal": tensap.DiagonalTensor}[fmt]
    r = int(rng.randint(1, 4))
    if fmt != "tree":
        args = {"full": (shape,), "canonical": (r, shape), "diagonal": (r, d)}[fmt]

        def fn():
            return cls.create(counting, *args) if kind == "create" else getattr(cls, kind)(*args)

        def out(v):
            parts = {"full": lambda: [v.data], "canonical": lambda: [np.asarray(u) for u in v.space], "diagonal": lambda: [v.data]}[fmt]()
            core = np.asarray(v.core.data if hasattr(v.core, "data") else v.core).ravel() if fmt == "canonical" else []
            return {"parts": [{"shape": L(q.shape), "data": vp.fixs(q, 1000)} for q in parts], "core": vp.fixs(core, 1000) if len(core) else [], "shape": L(v.shape), "order": int(v.order)}

        ctx.observe("create", fn, out, fmt=fmt, how=kind, ask=shape, r=r, d=d, sig="create.%s.%s" % (fmt, kind))
        return
    t = F.rtree(rng, d)
    act = np.array(F.ractive(rng, t), dtype=bool)
    bad = bool(rng.rand() < 0.1)
    if bad:
        inner = [a for a in range(t.nb_nodes) if not t.is_leaf[a]]
        act[inner[rng.randint(len(inner))]] = False
    rk = [int(v) for v in rng.randint(1, 4, t.nb_nodes)]
    if rng.rand() < 0.7:
        rk[t.root - 1] = 1
    mr = ["none", "random", "list", "array", "one"][rng.randint(5)]
    ms = ["none", "random", "list", "array"][rng.randint(4)]
    ma = "list" if bad else ["none", "random", "list", "array"][rng.randint(4)]
    one = int(rng.randint(1, 4))
    args = [t, {"none": None, "random": "random", "list": rk, "array": np.array(rk), "one": one}[mr],
            {"none": None, "random": "random", "list": shape, "array": np.array(shape)}[ms],
            {"none": None, "random": "random", "list": list(act), "array": act}[ma]]
    if ma == "none" and mr == "none" and ms == "none" and rng.rand() < 0.5:
        args = [t]
    if mr == "one":
        rk = [one] * t.nb_nodes

    def fn():
        try:
            return cls.create(counting, *args) if kind == "create" else getattr(cls, kind)(*args)
        except ValueError:
            return None

    def out(v):
        if v is None:
            return {"refused": True}
        return {"refused": False, "y": F.dump_tree(v.tree), "parts": [{"shape": L(u.data.shape), "data": vp.fixs(u.data, 1000)} if np.size(u.data) else {"shape": [], "data": []} for u in v.tensors],
                "act": [bool(u) for u in v.is_active_node], "ranks": L(v.ranks), "shape": L(v.shape), "order": int(v.order)}

    ctx.observe("create", fn, out, fmt=fmt, how=kind, x=F.dump_tree(t), ask=[] if ms in ("none", "random") else shape, asked=ms, d=d,
                rk=[] if mr in ("none", "random") else rk, ia=[] if ma in ("none", "random") else [bool(v) for v in act], anyact=ma == "random",
                sig="create.tree.%s.%s.%s.%s" % (kind, mr, ms, ma))


def run(ctx):
    rng = ctx.sub_rng("coefficients")
    for _ in range(ctx.n(60, 400)):
        coefficients(ctx, rng)
    ctx.model("RankSpec", ["SizeLaw", "OnesLaw", "DropLaw", "LocalLaw"], constants=["RMAX = %d" % ctx.n(2, 3), "SMAX = %d" % ctx.n(2, 3)])
    rng = ctx.sub_rng("measures")
    for i in range(ctx.n(400, 5000)):
        fmt = ["tree", "tree", "tree", "full", "canonical", "sparse", "diagonal"][i % 7]
        measures(ctx, tree_tensor(rng) if fmt == "tree" else F.random_obj(rng, fmt), int(rng.randint(4)))
    rng = ctx.sub_rng("rank")
    for _ in range(ctx.n(250, 4000)):
        x = tree_tensor(rng)
        if rng.rand() < 0.3:
            x = x + x
        if not np.any(F.dense(x)) and all(np.any(t.data) for t in x.tensors if t.data.size):
            continue  # zero by cancellation: only rounding noise to count
        ctx.observe("rank", lambda: x.rank, lambda v: {"val": L(v)}, x=F.dump(x), sig="rank")
    rng = ctx.sub_rng("adm")
    for _ in range(ctx.n(500, 6000)):
        admissible(ctx, rng, tree_tensor(rng))
    rng = ctx.sub_rng("make")
    for _ in range(ctx.n(300, 3000)):
        make(ctx, rng)
        enrich(ctx, rng)
        newrank(ctx, rng, False)
    for _ in range(ctx.n(15, 200)):
        newrank(ctx, rng, True)
    rng = ctx.sub_rng("create")
    for _ in range(ctx.n(300, 4000)):
        create(ctx, rng)
