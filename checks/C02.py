"""C02: conversions between formats preserve the represented tensor."""
import numpy as np
import tensap

import formats as F
import vp


def out(v):
    return {"out": F.dump(v), "att": F.attrs(v)}


def conv(ctx, sig, x, fn, want, op="same", **kw):
    xd = F.dump(x) if x is not None else {"fmt": "full", "shape": [0], "data": []}
    return ctx.observe(op, fn, out, sig=sig, x=xd, want=want, **kw)


def tree_wants(tree, act):
    return {"wantact": [bool(a) for a in act], "wanttree": F.dump_tree(tree)}


def from_obj(ctx, rng, x, depth=2):
    """All the conversions offered by an object (and by their results)."""
    if depth == 0 or x is None:
        return
    T = type(x).__name__
    nxt = []
    nxt.append(conv(ctx, T + ".full", x, x.full, "full"))
    if not (isinstance(x, tensap.SparseTensor) and x.ndim > 2):
        if not (isinstance(x, tensap.SparseTensor) and x.ndim < 2):
            conv(ctx, T + ".numpy", x, x.numpy, "full")
    if isinstance(x, tensap.FullTensor):
        nxt.append(conv(ctx, T + ".sparse", x, x.sparse, "sparse"))
        nxt.append(conv(ctx, T + ".copy", x, lambda: tensap.FullTensor(x), "full"))
        if x.order > 1:
            nxt.append(conv(ctx, T + ".tree_based_tensor", x, x.tree_based_tensor, "tree",
                            **tree_wants(tensap.DimensionTree.trivial(x.order), [True] * (x.order + 1))))
        arr = x.data
        nxt.append(conv(ctx, "SparseTensor(ndarray)", x, lambda: tensap.SparseTensor(arr), "sparse"))
        conv(ctx, "SparseTensor(list)", x, lambda: tensap.SparseTensor(arr.tolist()), "sparse")
    if isinstance(x, tensap.DiagonalTensor):
        nxt.append(conv(ctx, T + ".sparse", x, x.sparse, "sparse"))
        nxt.append(conv(ctx, T + ".copy", x, lambda: tensap.DiagonalTensor(x), "diagonal"))
        if x.order > 1:
            lin = tensap.DimensionTree.linear(x.order)
            nxt.append(conv(ctx, T + ".tree_based_tensor()", x, x.tree_based_tensor, "tree",
                            **tree_wants(lin, [not v for v in lin.is_leaf])))
            t = F.rtree(rng, x.order)
            nxt.append(conv(ctx, T + ".tree_based_tensor(tree)", x, lambda: x.tree_based_tensor(t), "tree",
                            **tree_wants(t, [not v for v in t.is_leaf])))
            t2 = F.rtree(rng, x.order)
            act = F.ractive(rng, t2)
            nxt.append(conv(ctx, T + ".tree_based_tensor(tree,active)", x, lambda: x.tree_based_tensor(t2, act), "tree",
                            **tree_wants(t2, act)))
    if isinstance(x, tensap.CanonicalTensor) and x.order > 1:
        t = F.rtree(rng, x.order)
        nxt.append(conv(ctx, T + ".tree_based_tensor(tree)", x, lambda: x.tree_based_tensor(t), "tree",
                        **tree_wants(t, [True] * t.nb_nodes)))
        t2 = F.rtree(rng, x.order)
        act = F.ractive(rng, t2)
        arg = list(act) if rng.rand() < 0.5 else act
        nxt.append(conv(ctx, T + ".tree_based_tensor(tree,active)", x, lambda: x.tree_based_tensor(t2, arg), "tree",
                        **tree_wants(t2, act)))
    if isinstance(x, tensap.SparseTensor):
        nxt.append(conv(ctx, T + ".copy", x, lambda: tensap.SparseTensor(x), "sparse"))
    if isinstance(x, tensap.TreeBasedTensor):
        nxt.append(conv(ctx, T + ".copy", x, lambda: tensap.TreeBasedTensor(x), "tree",
                        **tree_wants(x.tree, x.is_active_node)))
        if x.order > 1:
            leaves = [int(v) for v in x.tree.dim2ind]
            k = int(rng.randint(1, len(leaves) + 1))
            pick = [leaves[j] for j in rng.permutation(len(leaves))[:k]]
            act = np.array(x.is_active_node)
            act[np.array(pick) - 1] = False
            a = pick if rng.rand() < 0.5 else np.array(pick)
            nxt.append(conv(ctx, T + ".inactivate_nodes", x, lambda: x.inactivate_nodes(a), "tree", **tree_wants(x.tree, act)))
            k = int(rng.randint(1, len(leaves) + 1))
            pick2 = [leaves[j] for j in rng.permutation(len(leaves))[:k]]
            act2 = np.array(x.is_active_node)
            act2[np.array(pick2) - 1] = True
            a2 = pick2 if rng.rand() < 0.5 else np.array(pick2)
            nxt.append(conv(ctx, T + ".activate_nodes", x, lambda: x.activate_nodes(a2), "tree", **tree_wants(x.tree, act2)))
    nxt = [v for v in nxt if v is not None and hasattr(v, "order")]
    if depth > 1 and nxt:
        from_obj(ctx, rng, nxt[rng.randint(len(nxt))], depth - 1)


def constructors(ctx, rng):
    d = int(rng.randint(1, 5))
    shape = F.rshape(rng, d)
    data = F.rint(rng, int(np.prod(shape)))
    sh = [list(shape), tuple(shape), np.array(shape)][rng.randint(3)]
    conv(ctx, "FullTensor(data,shape)", None, lambda: tensap.FullTensor(data, d, sh), "full",
         op="data", shape=shape, vals=vp.ints(data))
    extra = int(rng.randint(0, 3))
    a = F.rint(rng, tuple(shape))
    conv(ctx, "FullTensor(data,order)", None, lambda: tensap.FullTensor(a, d + extra), "full",
         op="data", shape=shape + [1] * extra, vals=vp.ints(a))
    conv(ctx, "FullTensor(list)", None, lambda: tensap.FullTensor(a.tolist()), "full",
         op="data", shape=shape, vals=vp.ints(a))
    r = int(rng.randint(1, 4))
    v = F.rint(rng, r)
    conv(ctx, "FullTensor.diag", None, lambda: tensap.FullTensor.diag(v, d), "full", op="diag", vals=vp.ints(v), order=d)
    for nm, c in (("zeros", 0), ("ones", 1)):
        conv(ctx, "FullTensor." + nm, None, lambda: getattr(tensap.FullTensor, nm)(sh), "full", op="const", shape=shape, c=c)
        conv(ctx, "CanonicalTensor." + nm, None, lambda: getattr(tensap.CanonicalTensor, nm)(r, sh), "canonical",
             op="constcanonical", shape=shape, c=c, rank=r)
        conv(ctx, "DiagonalTensor." + nm, None, lambda: getattr(tensap.DiagonalTensor, nm)(r, d), "diagonal",
             op="constdiag", c=c, rank=r, order=d)
    for nm in ("rand", "randn"):
        # random generators: only shape and structure are determined
        ctx.observe("data", lambda: getattr(tensap.FullTensor, nm)(sh),
                    lambda v: out(tensap.FullTensor(v.data * 0)), sig="FullTensor." + nm, x={"fmt": "full", "shape": [0], "data": []},
                    want="full", shape=shape, vals=[0] * int(np.prod(shape)))
    if d > 1:
        # given ranks, shape and active nodes
        t = F.rtree(rng, d)
        act = F.ractive(rng, t)
        ranks = rng.randint(1, 4, t.nb_nodes)
        ranks[t.root - 1] = 1
        tmpl = F.rtreetensor(rng, t, shape, act=act, ranks=ranks)
        for nm, c in (("zeros", 0), ("ones", 1)):
            conv(ctx, "TreeBasedTensor." + nm, tmpl, lambda: getattr(tensap.TreeBasedTensor, nm)(t, ranks, sh, act), "tree",
                 op="consttree", c=c, **tree_wants(t, act))
        r1 = int(rng.randint(1, 3))
        rr = np.full(t.nb_nodes, r1)
        if r1 == 1:
            tmpl1 = F.rtreetensor(rng, t, [r1] * d, act=[True] * t.nb_nodes, ranks=rr)
            conv(ctx, "TreeBasedTensor.ones(rank)", tmpl1, lambda: tensap.TreeBasedTensor.ones(t, r1), "tree",
                 op="consttree", c=1, **tree_wants(t, [True] * t.nb_nodes))
        # tensor trains
        rk = [1] + [int(q) for q in rng.randint(1, 4, d - 1)] + [1]
        cores = [F.rint(rng, (rk[k], shape[k], rk[k + 1])) for k in range(d)]
        cores[0] = cores[0][0]
        cores[-1] = cores[-1][..., 0]
        lin = tensap.DimensionTree.linear(d)
        cd = [vp.arr(c) for c in cores]
        ft = [tensap.FullTensor(c) for c in cores]
        w = {"wanttree": F.dump_tree(lin)}
        conv(ctx, "TreeBasedTensor.tensor_train", None, lambda: tensap.TreeBasedTensor.tensor_train(ft), "tree", op="tt", cores=cd, **w)
        p = [int(q) for q in rng.permutation(d)]  # core j is that of dimension p[j]
        given = [ft[q] for q in p]
        conv(ctx, "TreeBasedTensor.tensor_train(dims)", None, lambda: tensap.TreeBasedTensor.tensor_train(given, p), "tree", op="tt", cores=cd, **w)


def run(ctx):
    ctx.model("RepSpec", ["Refines"], constants=["SEEDS = %d" % ctx.n(60, 400), "DEPTH = %d" % ctx.n(3, 4), 'OPS = {"convert"}'])
    for f in ["full", "canonical", "diagonal", "sparse", "tree"]:
        rng = ctx.sub_rng("conv", f)
        for _ in range(ctx.n(120, 1500)):
            from_obj(ctx, rng, F.random_obj(rng, f), 3)
        # larger orders, equal mode sizes (the leaves of a canonical tensor
        # then all have the same shape)
        for _ in range(ctx.n(25, 300)):
            d = int(rng.randint(2, 6))
            n = 2 if d > 3 else int(rng.randint(1, 4))
            from_obj(ctx, rng, F.random_obj(rng, f, shape=[n] * d, order=d), 2)
    rng = ctx.sub_rng("rootrank")
    for _ in range(ctx.n(60, 600)):
        t = F.rtree(rng, int(rng.randint(2, 5)))
        x = F.rtreetensor(rng, t, F.rshape(rng, len(t.dim2ind)), root_rank=int(rng.randint(2, 4)))
        from_obj(ctx, rng, x, 2)
    rng = ctx.sub_rng("constructors")
    for _ in range(ctx.n(100, 1200)):
        constructors(ctx, rng)
