"""C03: entry, partial and diagonal evaluation."""
import numpy as np
import tensap

import algebra as A
import formats as F
import vp


def out(v):
    if hasattr(v, "toarray"):
        v = np.ravel(v.toarray())
    return {"out": F.dump(v)}


def obs(ctx, sig, op, x, fn, loose=False, **kw):
    return ctx.observe(op, fn, out, sig=sig, x=F.dump(x), loose=loose, **kw)


def pts(rng, shape, n):
    return np.stack([rng.randint(0, s, n) for s in shape], axis=1)


def form(rng, ind):
    return [ind, ind.tolist()][rng.randint(2)]


def cases(ctx, rng, x):
    f = A.fmt_of(x)
    d, s = A.order_of(x), A.shape_of(x)
    n = int(rng.randint(1, 6))
    root = f == "tree" and int(x.ranks[x.tree.root - 1]) > 1
    sfx = "root" if root else "all"
    if f != "canonical":
        ind = pts(rng, s, n)
        if rng.rand() < 0.3:
            ind = ind[rng.randint(0, n, n)]  # repeated points
        arg = form(rng, ind) if f in ("full",) else ind
        if f == "sparse" and rng.rand() < 0.4:
            arg = tensap.MultiIndices(ind)
        obs(ctx, f + ".eval_at_indices", "evalroot" if root else "evalall", x, lambda: x.eval_at_indices(arg), pts=(ind + 1).tolist())
    if f in ("full", "tree"):
        m = int(rng.randint(1, d + 1))
        if f == "full":
            dims = [int(v) for v in rng.permutation(d)[:m]]
        else:
            tr = x.tree
            if rng.rand() < 0.5 or d == 1:
                dims = [int(rng.randint(d))]
            else:
                al = int(rng.choice([a for a in range(1, tr.nb_nodes + 1)]))
                dims = [int(v) for v in rng.permutation(tr.dims[al - 1])]
        if len(dims) == d and root:
            dims = dims[:1]
        ind = pts(rng, [s[k] for k in dims], n)
        da = np.array(dims) if len(dims) > 1 or rng.rand() < 0.6 else dims[0]
        ia = ind if not (f == "full" and len(dims) > 1) else form(rng, ind)
        loose = f == "tree" and n == 1 and len(dims) > 1
        if f == "full" and n == len(dims) == 1:
            pass
        pos = "first" if f == "tree" and len(dims) > 1 else "lo"
        obs(ctx, f + ".eval_at_indices(dims)", "evalmodes", x, lambda: x.eval_at_indices(ia, da), loose=loose,
            pts=(ind + 1).tolist(), modes=[k + 1 for k in dims], pos=pos)
        sel, args = [], []
        for k in range(d):
            v = rng.randint(0, s[k], rng.randint(1, 4))
            if rng.rand() < 0.3:
                sel.append(list(range(1, s[k] + 1)))
                args.append(":")
            else:
                sel.append([int(q) + 1 for q in v])
                args.append(v)
        obs(ctx, f + ".sub_tensor", "subroot" if root else "sub", x, lambda: x.sub_tensor(*args), sel=sel)


def diags(ctx, rng, f):
    d = int(rng.randint(1, 5))
    n = int(rng.randint(1, 4)) if d < 4 else int(rng.randint(1, 3))
    shape = [n] * d
    if d == 1 and f in ("canonical", "diagonal", "tree", "sparse"):
        shape = [int(rng.randint(1, 4))]
    x = F.wear(rng, F.random_obj(rng, f, shape=shape, order=d))
    obs(ctx, f + ".eval_diag()", "diagall", x, lambda: x.eval_diag())
    if d == 1:
        return
    # some modes of equal size, the others arbitrary
    m = int(rng.randint(1, d + 1))
    if f == "tree":
        x0 = x
        tr = F.rtree(rng, d)
        al = int(rng.randint(1, tr.nb_nodes + 1))
        dims = [int(v) for v in tr.dims[al - 1]]
        shape = [n if k in dims else int(rng.randint(1, 4)) for k in range(d)]
        x = F.wear(rng, F.rtreetensor(rng, tr, shape))
        dims = [dims[k] for k in rng.permutation(len(dims))]
        obs(ctx, f + ".eval_diag(dims)", "diagmodes", x, lambda: x.eval_diag(np.array(dims)),
            modes=[k + 1 for k in dims], pos="first")
        return
    dims = [int(v) for v in rng.permutation(d)[:m]]
    if f == "sparse":
        dims = sorted(dims) if len(dims) == d else dims[:1]
    if f not in ("diagonal", "sparse"):
        shape = [n if k in dims else int(rng.randint(1, 4)) for k in range(d)]
        x = F.wear(rng, F.random_obj(rng, f, shape=shape, order=d))
    obs(ctx, f + ".eval_diag(dims)", "diagmodes", x, lambda: x.eval_diag(np.array(dims) if rng.rand() < 0.5 else dims),
        modes=[k + 1 for k in dims], pos="lo")


def run(ctx):
    ctx.model("RepSpec", ["Refines"], constants=["SEEDS = %d" % ctx.n(60, 400), "DEPTH = %d" % ctx.n(2, 3), 'OPS = {"convert", "eval"}'])
    for f in ["full", "canonical", "diagonal", "sparse", "tree"]:
        rng = ctx.sub_rng("eval", f)
        if f != "canonical":
            for _ in range(ctx.n(400, 4000)):
                cases(ctx, rng, F.wear(rng, F.random_obj(rng, f)))
        rng = ctx.sub_rng("diag", f)
        for _ in range(ctx.n(350, 3000)):
            diags(ctx, rng, f)
    rng = ctx.sub_rng("larger")
    for f in ["full", "sparse", "tree"]:
        for _ in range(ctx.n(60, 600)):
            d = int(rng.randint(4, 6))
            cases(ctx, rng, F.random_obj(rng, f, shape=[int(v) for v in rng.randint(1, 3, d)]))
    rng = ctx.sub_rng("rootrank")
    for _ in range(ctx.n(120, 1000)):
        t = F.rtree(rng, int(rng.randint(2, 5)))
        x = F.rtreetensor(rng, t, F.rshape(rng, len(t.dim2ind)), root_rank=int(rng.randint(2, 4)))
        cases(ctx, rng, x)
        n = int(rng.randint(1, 3))
        y = F.rtreetensor(rng, t, [n] * len(t.dim2ind), root_rank=2)
        obs(ctx, "tree.eval_diag(root)", "diagroot", y, lambda: y.eval_diag())
