"""C15: tensor grids enumerate the right points."""
import numpy as np
import tensap

import vp
from C12 import D, MI


def P(a):
    return [vp.ilist(r) for r in np.asarray(a)]


def make_grids(rng, d, dims=(1, 1, 1, 2), top=4):
    g = []
    for _ in range(d):
        k = int(rng.choice(dims))
        n = int(rng.randint(1, top))
        g.append(rng.randint(-3, 6, (n, k)).astype(float))
    return g


def args_of(rng, g):
    """The same grids as lists of arrays, possibly one-dimensional arrays."""
    return [x[:, 0].copy() if x.shape[1] == 1 and rng.rand() < 0.5 else x.copy() for x in g]


def dump(t):
    return lambda v: {"points": P(v.array()), "shape": vp.ilist(v.shape), "size": int(v.size), "dim": int(v.dim),
                      "inds": D(v.multi_indices() + 1)} if t == "full" else \
        {"points": P(v.array()), "shape": vp.ilist(v.shape), "size": int(v.size), "dim": int(v.dim)}


def fun(c, out, mode):
    c = np.array(c, dtype=float)

    def f(x):
        x = np.atleast_2d(x)
        y = c[:, 0] + x @ c[:, 1:].T + (x[:, 0] * x[:, -1])[:, None]
        # components in Fortran order of the output shape
        return np.stack([np.reshape(r, out, order="F") for r in y]) if len(out) else y[:, 0]

    def one(x):
        return f(x)[0]

    d = c.shape[1] - 1
    u = tensap.UserDefinedFunction(f if mode else one, d, 1 if out == [1] else out if len(out) else None)
    u.evaluation_at_multiple_points = bool(mode)
    return u


def case(ctx, rng):
    d = int(rng.randint(1, 5))
    g = make_grids(rng, d)
    gd = [P(x) for x in g]
    n = [x.shape[0] for x in g]
    ctx.observe("grid", lambda: tensap.FullTensorGrid(args_of(rng, g)), dump("full"), grids=gd, sig="full")
    held = args_of(rng, g)
    ctx.observe("grid", lambda: (tensap.FullTensorGrid(held), tensap.FullTensorGrid(held))[1], dump("full"), grids=gd, sig="full(again)")
    inds = [[int(rng.randint(m)) + 1 for m in n] for _ in range(int(rng.randint(1, 6)))]
    ctx.observe("at", lambda: tensap.FullTensorGrid(args_of(rng, g)).eval_at_indices(np.array(inds) - 1), lambda v: {"points": P(v)},
                grids=gd, inds=inds, sig="eval_at_indices")
    uniq = [list(t) for t in dict.fromkeys(tuple(t) for t in inds)]
    I0 = MI(np.array(uniq) - 1)
    ctx.observe("sparse", lambda: tensap.SparseTensorGrid(args_of(rng, g), I0), dump("sparse"), grids=gd, inds=uniq, sig="sparse")
    # isotropic grids
    one = rng.randint(-3, 6, int(rng.randint(1, 4))).astype(float)
    k = int(rng.randint(1, 4))
    iso = [[[int(v)] for v in one]] * k
    arg = list(one) if rng.rand() < 0.5 else one
    ctx.observe("grid", lambda: tensap.FullTensorGrid(arg, k), dump("full"), grids=iso, sig="isotropic")
    ind = [[int(rng.randint(one.size)) + 1 for _ in range(k)] for _ in range(3)]
    ind = [list(t) for t in dict.fromkeys(tuple(t) for t in ind)]
    ctx.observe("sparse", lambda: tensap.SparseTensorGrid(arg, MI(np.array(ind) - 1), k), dump("sparse"), grids=iso, inds=ind, sig="sparse(isotropic)")
    # evaluation of functions
    dd = sum(x.shape[1] for x in g)
    if int(np.prod(n)) > 60:
        return
    for out in ([], [2], [2, 3], [1]):
        m = int(np.prod(out))
        if m > 1 and rng.rand() < 0.5:
            continue
        c = [[int(v) for v in rng.randint(-3, 4, dd + 1)] for _ in range(m)]
        mode = rng.randint(2)
        f = fun(c, out, mode)
        o = [] if out == [1] else out
        ctx.observe("eval", lambda: f.eval_on_tensor_grid(tensap.FullTensorGrid(args_of(rng, g))),
                    lambda v: {"out": vp.arr(v.data), "order": int(v.order)}, grids=gd, c=c, outshape=o, sig="eval_on_tensor_grid(%s)" % "x".join(map(str, out)))
        if m == 1:
            ctx.observe("evalsparse", lambda: f.eval_on_tensor_grid(tensap.SparseTensorGrid(args_of(rng, g), I0)),
                        lambda v: {"out": vp.arr(v.full().data)}, grids=gd, c=c, inds=uniq, sig="eval_on_sparse_grid")


def random_grid(ctx, rng):
    d = int(rng.randint(1, 4))
    lo = [int(v) for v in rng.randint(-2, 2, d)]
    hi = [a + int(rng.randint(1, 3)) for a in lo]
    X = tensap.RandomVector([tensap.UniformRandomVariable(a, b) for a, b in zip(lo, hi)])
    n = [int(v) for v in rng.randint(1, 5, d)]
    if rng.rand() < 0.4:
        n = [n[0]] * d
        arg = n[0]
    else:
        arg = n if rng.rand() < 0.5 else np.array(n)
    S = 1000

    def out(v):
        a = v.array()
        assert a.shape[1] == d
        return {"shape": vp.ilist(v.shape), "npoints": int(a.shape[0]), "pts": [vp.fixs(a[:, k], S) for k in range(d)]}

    ctx.observe("random", lambda: tensap.FullTensorGrid.random(X, arg), out, want=n, lo=[v * S for v in lo], hi=[v * S for v in hi], sig="random")


def run(ctx):
    ctx.model("GridLaw", ["OneToOne", "Fastest", "Enumerates", "Valued"], constants=["DMAX = %d" % ctx.n(3, 4), "SMAX = %d" % ctx.n(2, 3)], init="GInit", next_="GNext")
    rng = ctx.sub_rng("grids")
    for _ in range(ctx.n(500, 8000)):
        case(ctx, rng)
    rng = ctx.sub_rng("random")
    for _ in range(ctx.n(60, 600)):
        random_grid(ctx, rng)
