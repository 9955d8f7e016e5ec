"""C11: gradients with respect to the parameters are the exact linear maps."""
import numpy as np
import tensap

import formats as F
import vp


def out(v):
    return {"out": F.dump(v)}


def obs(ctx, op, sig, fn, x, **kw):
    return ctx.observe(op, fn, out, sig=sig, x=F.dump(x), **kw)


def mats_for(rng, shape, n):
    return [F.rint(rng, (n, s)) for s in shape]


def tree_case(ctx, rng, d, root_rank=1, maxn=3):
    t = F.rtree(rng, d)
    shape = F.rshape(rng, d, 1, maxn, 30)
    x = F.rtreetensor(rng, t, shape, root_rank=root_rank)
    N = int(rng.randint(1, 4))
    mats = mats_for(rng, shape, N)
    md = [vp.arr(m) for m in mats]
    if rng.randint(3) == 0:
        # points instead of evaluated bases: monomials at integer points
        pts = F.rint(rng, (N, d))
        bs = tensap.FunctionalBases([tensap.PolynomialFunctionalBasis(tensap.CanonicalPolynomials(), range(s)) for s in shape])
        f = tensap.FunctionalTensor(x, bs)
        mats = [np.stack([pts[:, j] ** i for i in range(s)], axis=1) for j, s in enumerate(shape)]
        md = [vp.arr(m) for m in mats]
        xx = (pts,)
    else:
        f = tensap.FunctionalTensor(x, list(mats))
        xx = ()
    for a in [int(v) for v in rng.permutation(x.active_nodes)[:2]]:
        kind = "leaf" if t.is_leaf[a - 1] else ("root" if a == t.root else "internal")
        rr = "" if root_rank == 1 else "(vector)"
        obs(ctx, "tree", "parameter_gradient_eval.%s%s" % (kind, rr), lambda: f.parameter_gradient_eval(a, *xx), x, mats=md, a=a)
    cand = [a for a in x.active_nodes if a != t.root]
    if root_rank == 1 and cand:
        a = int(rng.choice(cand))
        sz = np.prod(x.tensors[a - 1].shape[:-1])
        if sz <= 9:
            kd = ("" if np.all(x.is_active_node) else "(inactive)") + ("(points)" if xx else "")
            if rng.randint(2):
                obs(ctx, "pair", "parameter_gradient_eval_dmrg" + kd,
                    lambda: f.parameter_gradient_eval_dmrg(a, *xx), x, mats=md, a=a)
            else:
                ctx.observe("lowrank", lambda: f.parameter_gradient_eval_dmrg(a, *xx, dmrg_type="dmrg_low_rank"),
                            lambda g: {"ga": F.dump(g[0]), "gg": F.dump(g[1])},
                            sig="parameter_gradient_eval_dmrg.low_rank" + kd, x=F.dump(x), mats=md, a=a)


def free_tree(ctx, rng):
    d = int(rng.randint(2, 4))
    t = F.rtree(rng, d)
    k = int(rng.randint(d))
    N = int(rng.randint(1, 4))
    shape = [int(rng.randint(1, 4)) if j == k else N for j in range(d)]
    x = F.rtreetensor(rng, t, shape, act=[True] * t.nb_nodes)
    a = int(t.dim2ind[k])
    obs(ctx, "freetree", "tree.parameter_gradient_eval_diag", lambda: x.parameter_gradient_eval_diag(a), x, a=a)


def canonical_case(ctx, rng):
    d = int(rng.randint(2, 5))
    shape = F.rshape(rng, d, 1, 3, 40)
    x = F.rcanonical(rng, shape)
    N = int(rng.randint(1, 4))
    mats = mats_for(rng, shape, N)
    f = tensap.FunctionalTensor(x, list(mats))
    for mu in range(1, d + 2):
        obs(ctx, "canonical", "canonical.parameter_gradient_eval%s" % ("(core)" if mu > d else ""),
            lambda: f.parameter_gradient_eval(mu), x, mats=[vp.arr(m) for m in mats], a=mu)
    k = int(rng.randint(d))
    y = F.rcanonical(rng, [int(rng.randint(1, 4)) if j == k else N for j in range(d)])
    obs(ctx, "freecanonical", "canonical.parameter_gradient_eval_diag", lambda: y.parameter_gradient_eval_diag(k + 1), y, a=k + 1)


def run(ctx):
    ctx.model("GradLaw", ["Reproduces", "Linear", "PairReproduces"], constants=["SEEDS = %d" % ctx.n(120, 1500), "DEPTH = 0", 'OPS = {}'], init="GrInit", next_="GrNext")
    rng = ctx.sub_rng("tree")
    for _ in range(ctx.n(450, 3500)):
        tree_case(ctx, rng, int(rng.choice([2, 3, 3, 4])))
    rng = ctx.sub_rng("tree5")
    for _ in range(ctx.n(60, 450)):
        tree_case(ctx, rng, int(rng.randint(5, 7)), maxn=2)
    rng = ctx.sub_rng("vector")
    for _ in range(ctx.n(150, 1100)):
        tree_case(ctx, rng, int(rng.choice([2, 3, 4])), root_rank=int(rng.randint(2, 4)))
    rng = ctx.sub_rng("free")
    for _ in range(ctx.n(100, 600)):
        free_tree(ctx, rng)
    rng = ctx.sub_rng("canonical")
    for _ in range(ctx.n(150, 1100)):
        canonical_case(ctx, rng)
