"""C10: restructuring a tree-based tensor preserves it."""
import numpy as np
import tensap

import formats as F
import trees as T
import vp


def snap(x):
    d = F.dense(x)
    return {"tree": F.dump_tree(x.tree), "act": [bool(np.size(t.data)) for t in x.tensors], "shapes": [[int(n) for n in t.data.shape] for t in x.tensors],
            "said": activity(x), "ranks": [int(r) for r in x.ranks], "shape": [int(n) for n in x.shape], "order": int(x.order),
            "arr": {"shape": [int(n) for n in d.shape], "data": vp.fixs(d, 1000)}, "storage": int(sum(np.size(t.data) for t in x.tensors))}


def activity(x):
    """What the tensor says of its active nodes and dimensions."""
    L = lambda v: [int(k) for k in np.ravel(np.asarray(v))]  # noqa: E731
    return {"nodes": L(x.active_nodes), "non": L(x.non_active_nodes), "dims": [k + 1 for k in L(x.active_dims)], "nondims": [k + 1 for k in L(x.non_active_dims)],
            "is": [bool(x.is_active_dim(k)) for k in range(x.order)], "isall": [bool(b) for b in np.atleast_1d(x.is_active_dim(list(range(x.order))))],
            "isnode": [bool(b) for b in x.is_active_node]}


def step(ctx, x, op, sig=""):
    k, p = op["k"], op["p"]
    tol = p / 10 + 1e-11 if p else 1e-15
    s = np.array(op["s"], dtype=int)
    if k == "permnodes":
        fn = (lambda: x.permute_nodes([op["a"], op["b"]], tol)) if p else (lambda: x.permute_nodes(np.array([op["a"], op["b"]])))
    elif k == "permbad":
        def fn():
            try:
                x.permute_nodes([op["a"], op["b"]])
            except ValueError:
                return x
            return None
    elif k == "permleaves":
        fn = (lambda: x.permute_leaves([int(v) - 1 for v in s], tol)) if p else (lambda: x.permute_leaves(s - 1))
    elif k == "changeroot":
        fn = lambda: x.change_root(op["a"])  # noqa
    elif k == "unique":
        fn = lambda: x.remove_unique_children()  # noqa
    elif k == "inactivate":
        fn = lambda: x.inactivate_nodes(s)  # noqa
    elif k == "activate":
        fn = lambda: x.activate_nodes(s)  # noqa
    elif k == "opttree":
        fn = lambda: x.optimize_dimension_tree(tol, op["a"])  # noqa
    elif k == "optleaves":
        fn = lambda: x.optimize_leaves_permutations(tol, op["a"])  # noqa
    before = snap(x)
    rr = int(x.ranks[x.tree.root - 1])
    n2 = int(round(float(np.sum(F.dense(x) ** 2))))

    def out(v):
        raised = k == "permbad" and v is not None
        return {"y": snap(x if v is None else v), "xafter": snap(x), "raised": raised}

    v = ctx.observe(k, fn, out, sig=k + sig + (".rootrank" if rr > 1 else "") + (".order1" if x.order == 1 else ""), x=before, a=op["a"], b=op["b"], s=op["s"], p=p, rr=rr, n2=n2)
    if ctx.records[-1]["err"]:
        return None
    return x if v is None else v


def rng_tree(rng):
    return [{"parent": [0, 1, 1, 2, 2], "dims": [3, 4, 5]}, {"parent": [0, 1, 1, 1], "dims": [2, 3, 4]}][rng.randint(2)]


MODES = ["tolerance", "cv", "test", "both", "test_zero", "absolute", "off"]


def adapt(ctx, rng, x, mode):
    """Tree adaptation of a learner: the search is accepted or ignored."""
    p = int(rng.choice([0, 1, 3]))
    tol = p / 10 + 1e-11 if p else 1e-12
    bases = tensap.FunctionalBases([tensap.PolynomialFunctionalBasis(tensap.LegendrePolynomials(), range(n)) for n in x.shape])
    before = snap(x)
    s = tensap.TreeBasedTensorLearning(x.tree, x.is_active_node, tensap.SquareLossFunction())
    s.display = False
    s.tree_adaptation = mode != "off"
    s.tree_adaptation_options["tolerance"] = tol if mode == "tolerance" else None
    it = int(rng.choice([3, 20]))
    s.tree_adaptation_options["max_iterations"] = it
    if mode == "absolute":
        s.loss_function.error_type = "absolute"
    cv = {"tolerance": 0.95, "cv": tol, "both": 0.95, "test_zero": tol}.get(mode, 0.95)
    te = {"tolerance": 0.95, "cv": None, "test": tol, "both": tol, "test_zero": 0}.get(mode, 0.95)
    if mode == "test":
        cv = None
    f = tensap.FunctionalTensor(x, bases)
    seed = int(rng.randint(1 << 30))
    active = mode in MODES[:5]
    ref = before["storage"]
    if active:
        v, err = ctx.call(lambda: np.random.seed(seed) or x.optimize_dimension_tree(tol, it))
        if err:
            return
        ref = int(v.storage())
    out0 = {}

    def fn():
        np.random.seed(seed)
        return s.adapt_tree(f, cv, te, out0)

    def out(res):
        s2, g, o = res
        same = s2 is s and bool(np.all(s.is_active_node == g.tensor.is_active_node)) and F.dump_tree(s.tree) == F.dump_tree(g.tensor.tree)
        return {"y": snap(g.tensor), "follows": bool(same), "flag": 2 if "adapted_tree" not in o else int(bool(o["adapted_tree"])), "enabled": bool(s.tree_adaptation),
                "bases": bool(g.bases is bases or g.bases == bases), "xafter": snap(x)}

    ctx.observe("adapt", fn, out, sig="adapt:" + mode, x=before, a=it, b=0, s=[], p=p, rr=1, mode=mode, ref=ref, n2=int(round(float(np.sum(F.dense(x) ** 2)))) )


def start(ctx, rng, init):
    t = T.build(init["t"])
    act = np.ones(t.nb_nodes, dtype=bool)
    for a in init["ina"]:
        act[a - 1] = False
    d = len(init["t"]["dims"])
    shape = F.rshape(rng, d, 1 if rng.rand() < 0.3 else 2, 3 if d < 4 else 2)
    ranks = rng.randint(1, 4, t.nb_nodes)
    return F.rtreetensor(rng, t, shape, act, root_rank=init["rr"], ranks=ranks)


def run(ctx):
    inv = ["WellFormed", "NoOnly", "SwapLaw", "LeavesLaw", "RootLaw"]
    ctx.model("RestructSpec", inv, ["DimsStep"], constants=["L = %d" % ctx.n(1, 2), "NMAX = 6"], extra_cfg="VIEW View")
    rng = ctx.sub_rng("walks")
    progs = ctx.generate("RestructSpec", constants=["L = 6", "NMAX = 11"], init="SimInit", next_="SimNext", simulate=ctx.n(700, 12000), depth=8)
    rng.shuffle(progs)
    ctx.notes.append("%d behaviours" % len(progs))
    for b in progs[: ctx.n(500, 6500)]:
        x = start(ctx, rng, b["init"])
        for op in b["ops"]:
            x = step(ctx, x, op)
            if x is None:
                break
        if x is not None and rng.rand() < 0.4 and x.storage() < 400:
            k = ["opttree", "optleaves"][rng.randint(2)]
            step(ctx, x, {"k": k, "a": int(rng.choice([1, 3, 10])), "b": 0, "s": [], "p": int(rng.choice([0, 0, 1, 3]))})
    # tensors with a hidden better tree: a product of two tensors whose modes
    # are interleaved in the tree
    for _ in range(ctx.n(25, 300)):
        A = rng.randint(-2, 3, (3, 3))
        B = rng.randint(-2, 3, (3, 3))
        full = tensap.FullTensor(np.einsum("ac,bd->abcd", A, B).astype(float))
        t = [tensap.DimensionTree.balanced(4), tensap.DimensionTree.linear(4)][rng.randint(2)]
        tr = tensap.Truncator(1e-13)
        x, err = ctx.call(lambda: tr.hsvd(full, t))
        if err:
            continue
        for k in ("opttree", "optleaves"):
            step(ctx, x, {"k": k, "a": 20, "b": 0, "s": [], "p": int(rng.choice([0, 1]))}, ".hidden")
        adapt(ctx, rng, x, MODES[rng.randint(len(MODES))])
    for mode in MODES * ctx.n(2, 10):
        t = T.build(rng_tree(rng))
        adapt(ctx, rng, F.rtreetensor(rng, t, F.rshape(rng, 3, 2, 3), np.ones(t.nb_nodes, dtype=bool), root_rank=1, ranks=rng.randint(1, 4, t.nb_nodes)), mode)
