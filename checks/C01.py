"""C01: the algebra of tensors means the same in every format."""
import numpy as np

import algebra as A
import formats as F

FMTS = ["full", "canonical", "diagonal", "sparse", "tree"]


def small(o):
    if o is None:
        return False
    vals = []
    for k in ("data", "vals", "core"):
        vals += [v for v in o.get(k, [])] if isinstance(o.get(k), list) else []
    for t in o.get("nodes", []) + o.get("space", []):
        vals += t["data"]
    return not vals or max(abs(v) for v in vals) < 40


def one(ctx, rng, x, chain, gens=None):
    xd = F.dump(x)
    f = A.fmt_of(x)
    gens = gens or A.GENS
    for _ in range(30):
        g = gens[rng.randint(len(gens))]
        inst = g(rng, x)
        if inst is not None:
            break
    else:
        return None
    op, fields, th, out = inst
    v = ctx.observe(op, th, out, sig="%s.%s" % (f, op), repro=chain, x=xd, **({"y": xd} | fields))
    return v


def run(ctx):
    ctx.model("RepSpec", ["Refines"], constants=["SEEDS = %d" % ctx.n(80, 400), "DEPTH = 2", 'OPS = {"algebra"}'])
    n = ctx.n(500, 6000)
    for f in FMTS:
        rng = ctx.sub_rng("single", f)
        for _ in range(n):
            x = F.wear(rng, F.random_obj(rng, f))
            one(ctx, rng, x, 0)
        # every family gets its own share, whatever its applicability
        for g in sorted(set(A.GENS), key=lambda h: h.__name__):
            rng = ctx.sub_rng("family", f, g.__name__)
            for _ in range(ctx.n(40, 400)):
                x = F.wear(rng, F.random_obj(rng, f))
                one(ctx, rng, x, 0, [g])
    # vector-valued tree tensors (root rank > 1)
    rng = ctx.sub_rng("rootrank")
    for _ in range(ctx.n(150, 2000)):
        tree = F.rtree(rng, int(rng.randint(2, 5)))
        x = F.rtreetensor(rng, tree, F.rshape(rng, len(tree.dim2ind)), root_rank=int(rng.randint(2, 4)))
        x = F.wear(rng, x)
        one(ctx, rng, x, 0, [A.g_unary, A.g_sub, A.g_tmp, A.g_tdmp, A.g_rootmap, A.g_binary, A.g_kron])
    # chains: results are used as operands of further operations
    for f in FMTS:
        rng = ctx.sub_rng("chain", f)
        for c in range(ctx.n(90, 1000)):
            x = F.wear(rng, F.random_obj(rng, f))
            for step in range(5):
                v = one(ctx, rng, x, c)
                if v is None or A.fmt_of(v) is None or A.order_of(v) == 0:
                    break
                try:
                    if np.prod(A.shape_of(v)) > 60 or not small(F.dump(v)) or np.prod(A.shape_of(v)) == 0:
                        break
                    if A.fmt_of(v) == "tree" and max(np.atleast_1d(v.ranks)) > 6:
                        break
                    if A.fmt_of(v) == "sparse" and v.indices.cardinal() == 0:
                        pass
                except Exception:
                    break
                x = v
