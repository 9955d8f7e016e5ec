"""C07: inner products and norms agree with the represented arrays."""
import numpy as np
import tensap

import algebra as A
import formats as F
import vp

NONE = {"fmt": "full", "shape": [1], "data": [0]}


def val(v):
    return {"val": vp.to_int(np.asarray(v).reshape(()))}


def sq(v):
    return {"val": vp.to_int(float(np.asarray(v).reshape(())) ** 2, tol=1e-7)}


def obs(ctx, op, sig, fn, out, x, y=None, **kw):
    return ctx.observe(op, fn, out, sig=sig, x=F.dump(x), y=F.dump(y) if y is not None else NONE, **kw)


def cases(ctx, rng, f):
    x = F.wear(rng, F.random_obj(rng, f))
    d, s = A.order_of(x), A.shape_of(x)
    y = F.wear(rng, A.same_kind(rng, x))
    obs(ctx, "dot", f + ".dot", lambda: x.dot(y), val, x, y)
    obs(ctx, "dot", f + ".dot(swapped)", lambda: y.dot(x), val, y, x)
    obs(ctx, "dot", f + ".dot(self)", lambda: x.dot(x), val, x, x)
    obs(ctx, "norm2", f + ".norm", x.norm, sq, x)
    if f in ("full", "tree") and rng.rand() < 0.5:
        # an exact scaling factors out
        u = 2.0 ** int(rng.randint(-80, 81))
        obs(ctx, "norm2", f + ".scaled.norm", lambda: (u * x).norm() / u, sq, x)
        obs(ctx, "dot", f + ".scaled.dot", lambda: (u * x).dot(y) / u, val, x, y)
    if f in ("canonical", "full", "diagonal", "tree"):
        obs(ctx, "dist2", f + ".distance", lambda: (x - y).norm(), sq, x, y)
        obs(ctx, "dist2", f + ".distance(self)", lambda: (x - x).norm() if f != "tree" else (x - x).norm().round(9), sq, x, x)
    # after orthogonalisation the norm is read from one part only
    if f == "tree":
        xo, err = ctx.call(x.orth)
        if not err:
            obs(ctx, "norm2", f + ".orth.norm", xo.norm, sq, x)
            obs(ctx, "dot", f + ".orth.dot", lambda: xo.dot(y), val, x, y)
        a = int(rng.choice(x.active_nodes))
        obs(ctx, "norm2", f + ".orth_at_node.norm", lambda: x.orth_at_node(a).norm(), sq, x)
    if f == "canonical":
        obs(ctx, "norm2", f + ".orth.full.norm", lambda: x.orth().full().norm(), sq, x)
    if f == "full":
        k = int(rng.randint(d))
        # the orthogonal factor has orthonormal slices: R carries the norm
        obs(ctx, "norm2", f + ".orth.norm", lambda: np.linalg.norm(x.orth(k)[1]), sq, x)
    if f == "sparse":
        yf = y.full()
        obs(ctx, "dot", f + ".dot(full)", lambda: x.dot(yf), val, x, y)
        if len(set(s)) == 1:
            yd = F.rdiagonal(rng, s[0], d)
            obs(ctx, "dot", f + ".dot(diagonal)", lambda: x.dot(yd), val, x, yd)
    # rank-one metric, second operand of another shape
    if f != "canonical":
        s2 = [int(rng.randint(1, 4)) for _ in s]
        if f == "diagonal":
            s2 = [int(rng.randint(1, 4))] * d
            z = F.rdiagonal(rng, s2[0], d)
        elif f == "tree":
            z = F.rtreetensor(rng, x.tree, s2)
        else:
            z = A.same_kind(rng, x, s2)
        if np.prod(s) * np.prod(s2) < 1500:
            mats = [A.mat(rng, a, b) for a, b in zip(s, s2)]
            obs(ctx, "metric", f + ".dot_with_rank_one_metric", lambda: x.dot_with_rank_one_metric(z, mats), val, x, z,
                mats=[vp.arr(m) for m in mats], modes=list(range(1, d + 1)))
    if f in ("full", "tree", "canonical", "diagonal"):
        a, b = [int(v) for v in rng.randint(-2, 3, 2)]
        z = A.same_kind(rng, x)
        if f in ("full", "tree"):
            fn = lambda: (a * x + b * y).dot(z)  # noqa
        else:
            a, b = int(rng.choice([-1, 1])), int(rng.choice([-1, 1]))
            sg = lambda c, t: t if c > 0 else -t  # noqa
            fn = lambda: (sg(a, x) + sg(b, y)).dot(z)  # noqa
        obs(ctx, "bilinear", f + ".bilinear", fn, val, x, y, z=F.dump(z), a=a, b=b)


def run(ctx):
    ctx.model("RepSpec", ["Refines", "Inner"], constants=["SEEDS = %d" % ctx.n(400, 4000), "DEPTH = 0", 'OPS = {}'])
    for f in ["full", "canonical", "diagonal", "sparse", "tree"]:
        rng = ctx.sub_rng(f)
        for _ in range(ctx.n(220 if f != "tree" else 350, 2500)):
            cases(ctx, rng, f)
    rng = ctx.sub_rng("rootrank")
    for _ in range(ctx.n(120, 1000)):
        t = F.rtree(rng, int(rng.randint(2, 5)))
        s = F.rshape(rng, len(t.dim2ind))
        rr = int(rng.randint(2, 4))
        x = F.wear(rng, F.rtreetensor(rng, t, s, root_rank=rr))
        y = F.wear(rng, F.rtreetensor(rng, t, s, root_rank=int(rng.randint(2, 4))))
        obs(ctx, "rootdot", "tree.dot(vector-valued)", lambda: x.dot(y), lambda v: {"out": F.full_rec(v)}, x, y)
        obs(ctx, "norm2", "tree.norm(vector-valued)", x.norm, sq, x)
