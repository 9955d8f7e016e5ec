"""C05: dimension trees are well formed and their queries agree."""
import numpy as np
import tensap

import formats as F
import trees as T


def out(rng):
    def f(t):
        return {"tree": F.dump_tree(t), "q": T.queries(rng, t)}
    return f


def builders(ctx, rng, d):
    o = out(rng)
    ctx.observe("tree", lambda: tensap.DimensionTree.trivial(d), o, sig="trivial", kind="trivial", d=d)
    ctx.observe("tree", lambda: tensap.DimensionTree.linear(d), o, sig="linear", kind="linear", order=list(range(1, d + 1)))
    plain, err = ctx.call(lambda: F.dump_tree(tensap.DimensionTree.balanced(d)))
    if err:
        plain = {"parent": [0], "ch": [[]], "dims": [1]}
    ctx.observe("tree", lambda: tensap.DimensionTree.balanced(d), o, sig="balanced", kind="balanced", order=list(range(1, d + 1)), d=d, plain=plain)
    if d > 1:
        p = [int(v) + 1 for v in rng.permutation(d)]
        arg = p if rng.rand() < 0.5 else np.array(p)
        ctx.observe("tree", lambda: tensap.DimensionTree.linear(arg), o, sig="linear(order)", kind="linear", order=p)
        ctx.observe("tree", lambda: tensap.DimensionTree.balanced(arg), o, sig="balanced(order)", kind="balanced", order=p, d=d, plain=plain)
    for ar in (2, 3, [2, 3], [2, 4], np.array([3, 4])):
        lo, hi = (ar, ar) if isinstance(ar, int) else (int(ar[0]), int(ar[1]))
        for _ in range(ctx.n(3, 25)):
            sd = int(rng.randint(10**6))

            def fn():
                np.random.seed(sd)
                return tensap.DimensionTree.random(d, ar)

            ctx.observe("tree", fn, o, sig="random", kind="random", d=d, lo=lo, hi=hi)
    ctx.observe("tree", lambda: tensap.DimensionTree.random(d), o, sig="random()", kind="random", d=d, lo=2, hi=2)


def given(ctx, rng, d):
    o = out(rng)
    n = len(d["parent"])
    adj = np.zeros((n, n), dtype=int)
    for j, p in enumerate(d["parent"]):
        if p:
            adj[p - 1, j] = 1
    form = rng.randint(3)
    a, i = (adj, np.array(d["dims"])) if form == 0 else ((adj.tolist(), d["dims"]) if form == 1 else (adj.astype(bool).astype(int), tuple(d["dims"])))
    ctx.observe("tree", lambda: tensap.DimensionTree(i, a), o, sig="DimensionTree", kind="given", want=d)


def walk(ctx, rng, t, ops):
    o = out(rng)
    for op in ops:
        if t is None:
            return
        th = T.op_thunk(t, op)
        t = ctx.observe("tree", lambda: th()[0], o, sig="derived." + op["k"], kind="derived")


def run(ctx):
    ctx.model("TreeGen", ["WellFormed", "Laws", "EqLaw"], constants=["N0 = 4", "L = 0", "NMAX = 9"])
    rng = ctx.sub_rng("given")
    start = ctx.generate("TreeGen", constants=["N0 = %d" % ctx.n(4, 5), "L = 0", "NMAX = 9"], invariants=["EmitInit"], next_="None")
    for d in start:
        given(ctx, rng, {"parent": d["parent"], "dims": d["dims"]})
    for d in range(1, ctx.n(9, 13)):
        for _ in range(ctx.n(4, 40)):
            builders(ctx, rng, d)
    rng = ctx.sub_rng("walks")
    for b in T.behaviours(ctx):
        walk(ctx, rng, T.build(b["init"]), b["ops"])
    for _ in range(ctx.n(60, 1500)):
        t = T.random_tree(rng)
        given(ctx, rng, T.relabel(rng, F.dump_tree(t)))
        for _ in range(4):
            if t is None:
                break
            op = T.random_op(rng, t)
            th = T.op_thunk(t, op)
            t = ctx.observe("tree", lambda: th()[0], out(rng), sig="derived." + op["k"], kind="derived")
    # the dimensions follow the leaves when those are reassigned
    for _ in range(ctx.n(30, 300)):
        t = T.random_tree(rng)
        d = F.dump_tree(t)
        p = rng.permutation(len(d["dims"]))

        def fn():
            t.dim2ind = t.dim2ind[p]
            return t.update_dims_from_leaves()

        ctx.observe("tree", fn, out(rng), sig="update_dims_from_leaves", kind="given",
                    want={"parent": d["parent"], "ch": d["ch"], "dims": [d["dims"][k] for k in p]})
