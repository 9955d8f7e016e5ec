"""C14: index encodings and tensorisation are bijective."""
import numpy as np
import tensap

import vp
from C12 import D, MI

T = tensap.Tensorizer


def indices(ctx, rng):
    d = int(rng.randint(1, 5))
    shape = [int(v) for v in rng.randint(1, 5, d)]
    n = int(np.prod(shape))
    flat = [int(v) for v in rng.randint(0, n, int(rng.randint(1, 8)))]
    if n <= 24 and rng.rand() < 0.5:
        flat = list(range(n))
    sub = [[v // int(np.prod(shape[:k])) % shape[k] + 1 for k in range(d)] for v in flat]
    arg = np.array(shape) if rng.rand() < 0.5 else list(shape)
    ctx.observe("sub2ind", lambda: MI(np.array(sub) - 1).sub2ind(arg), lambda v: {"val": vp.ilist(v)}, shape=shape, x=sub)
    ctx.observe("ind2sub", lambda: MI.ind2sub(arg, np.array(flat)), lambda v: {"out": D(v + 1)}, shape=shape, x=[v + 1 for v in flat])
    ctx.observe("ind2sub", lambda: MI.ind2sub(arg, flat[0]), lambda v: {"out": D(v + 1)}, shape=shape, x=[flat[0] + 1], sig="ind2sub(int)")


def digits(ctx, rng):
    b = int(rng.randint(2, 11))
    d = int(rng.randint(1, 7))
    top = b**d
    if top > 10**8:
        return
    x = [int(v) for v in rng.randint(0, top, int(rng.randint(1, 6)))]
    if rng.rand() < 0.4:
        x = [min(max(b ** int(rng.randint(0, d + 1)) + int(rng.randint(-1, 2)), 0), top - 1) for _ in x]
    out = lambda v: {"out": [vp.ilist(r) for r in np.asarray(v)]}  # noqa: E731
    ctx.observe("tobase", lambda: tensap.integer2baseb(np.array(x), b, d), out, sig="integer2baseb", x=x, b=b, d=d)
    ctx.observe("tobase_min", lambda: tensap.integer2baseb(np.array(x), b), out, sig="integer2baseb(minimal)", x=x, b=b)
    ctx.observe("tobase_min", lambda: tensap.integer2baseb(x[0], b), out, sig="integer2baseb(int)", x=x[:1], b=b)
    dig = [[v // b ** (d - 1 - k) % b for k in range(d)] for v in x]
    ctx.observe("frombase", lambda: tensap.baseb2integer(np.array(dig), b), lambda v: {"val": vp.ilist(v)}, sig="baseb2integer", x=dig, b=b)
    ctx.observe("frombase", lambda: tensap.baseb2integer(dig[0], b), lambda v: {"val": vp.ilist(v)}, sig="baseb2integer(one)", x=dig[:1], b=b)


def random_points(rng, b, d, q, n, dim):
    """Integers t standing for t/(b^d q); cell boundaries only for powers of two."""
    top = b**d * q
    t = rng.randint(0, top + 1, (n, dim))
    if b & (b - 1) or q & (q - 1):
        t = np.where(t % q == 0, np.minimum(t + 1, top - 1), t)
    return t


def tensorizer(ctx, rng, ends=True):
    b = int(rng.randint(2, 6))
    d = int(rng.randint(1, {2: 7, 3: 5, 4: 4, 5: 4}[b]))
    dim = int(rng.randint(1, 4))
    q = int(rng.choice([2, 4, 8])) if b & (b - 1) == 0 else int(rng.choice([2, 3, 4]))
    lo = [int(v) for v in rng.randint(-2, 3, dim)]
    wd = [int(v) for v in rng.choice([1, 2, 4], dim)]
    kind = rng.randint(3)
    if kind == 0:
        X, lo, wd = None, [0] * dim, [1] * dim
    elif kind == 1:
        lo, wd = [lo[0]] * dim, [wd[0]] * dim
        X = tensap.UniformRandomVariable(lo[0], lo[0] + wd[0])
    else:
        X = tensap.RandomVector([tensap.UniformRandomVariable(a, a + w) for a, w in zip(lo, wd)])
    ylo, ywd = (0, 1) if rng.rand() < 0.5 else (int(rng.randint(-1, 2)), 2)
    Y = None if (ylo, ywd) == (0, 1) else tensap.UniformRandomVariable(ylo, ylo + ywd)
    if rng.rand() < 0.3:
        ylo, ywd = rng.randint(-1, 3, dim), rng.choice([1, 2, 4], dim)
        Y = tensap.RandomVector([tensap.UniformRandomVariable(a, a + w) for a, w in zip(ylo, ywd)])
    tz = T(b, d, dim, X, Y)
    tz.ordering_type = int(rng.randint(1, 3)) if dim > 1 else 1
    N = b**d * q
    n = int(rng.randint(1, 6))
    t = random_points(rng, b, d, q, n, dim)
    x = np.array(lo) + np.array(wd) * (t / N)
    par = dict(b=b, d=d, q=q, ordering=tz.ordering_type)
    tag = "(%d-d,%d)" % (min(dim, 2), tz.ordering_type)

    def split(z):
        z = np.asarray(z)
        assert z.shape == (n, dim * (d + 1)), "wrong shape %s" % (z.shape,)
        return {"index": [vp.ints(r) for r in z[:, : dim * d]], "rest": [vp.ints((r - ylo) / ywd, q) for r in z[:, dim * d:]]}

    ctx.observe("map", lambda: tz.map(x), split, sig="map" + tag, t=t.tolist(), **par)
    ctx.observe("map", lambda: tz.map(x, 2), lambda v: split(np.hstack((v[1], v[0]))), sig="map(nargout)" + tag, t=t.tolist(), **par)
    ix = rng.randint(0, b, (n, dim * d))
    ys = rng.randint(0, q + 1, (n, dim))
    z = np.hstack((ix, ylo + ywd * ys / q))
    back = lambda v: {"out": [vp.ints((r - np.array(lo)) / np.array(wd), N) for r in np.asarray(v)]}  # noqa: E731
    ctx.observe("unmap", lambda: tz.inverse_map(z), back, sig="inverse_map" + tag, ix=ix.tolist(), ys=ys.tolist(), **par)
    if n == 1:
        ctx.observe("unmap", lambda: tz.inverse_map(z[0]), back, sig="inverse_map(one)" + tag, ix=ix.tolist(), ys=ys.tolist(), **par)
    if dim == 1:
        ctx.observe("map", lambda: tz.map(x[:, 0]), split, sig="map(1-D array)", t=t.tolist(), **par)
    # functions and their tensorisations
    c = [int(v) for v in rng.randint(-3, 4, dim + 1)]

    def f(u):
        u = np.atleast_2d(u)
        s = np.round((u - np.array(lo)) / np.array(wd) * N, 6)
        return c[0] + s @ np.array(c[1:]) + (s[:, 0] * s[:, 1] if dim > 1 else s[:, 0] ** 2)

    val = lambda v: {"val": vp.ints(v, tol=1e-5)}  # noqa: E731
    if N > 4000:
        return
    zz, err = ctx.call(lambda: tz.map(x))
    uf = tensap.UserDefinedFunction(f, dim)
    uf.evaluation_at_multiple_points = True
    us = tensap.UserDefinedFunction(f, dim)
    for name, g in (("callable", f), ("Function", uf), ("pointwise", us)):
        tf, err2 = ctx.call(lambda: tz.tensorize(g))
        ctx.observe("fun", lambda: tz.tensorize(g)(x), val, sig="tensorize(%s)(x)" % name, t=t.tolist(), c=c)
        if dim == 1:
            ctx.observe("fun", lambda: tz.tensorize(g)(x[:, 0]), val, sig="tensorize(%s)(x, 1-D array)" % name, t=t.tolist(), c=c)
        if not err:
            ctx.observe("fun", lambda: tz.tensorize(g)(zz), val, sig="tensorize(%s)(z)" % name, t=t.tolist(), c=c)
            ctx.observe("fun", lambda: tz.tensorize(g).fun(zz), val, sig="tensorize(%s).fun" % name, t=t.tolist(), c=c)


def laws(ctx, rng):
    """Other laws: round trip and digits of the distribution function."""
    b = int(rng.randint(2, 5))
    d = int(rng.randint(1, 5))
    mu, s = int(rng.randint(-2, 3)), int(rng.randint(1, 3))
    X = tensap.NormalRandomVariable(mu, s)
    Y = tensap.NormalRandomVariable(0, 1) if rng.rand() < 0.3 else None
    tz = T(b, d, 1, X, Y)
    x = np.round(mu + s * rng.uniform(-2, 2, (4, 1)), 3) + 0.00037
    from math import erf, sqrt
    cell = [int(np.floor((1 + erf((v - mu) / (s * sqrt(2)))) / 2 * b**d)) for v in x[:, 0]]

    def body():
        z = tz.map(x)
        return z, tz.inverse_map(z)

    ctx.observe("roundtrip", body, lambda v: {"x": vp.fixs(x[:, 0]), "back": vp.fixs(v[1]), "index": [vp.ints(r) for r in v[0][:, :d]], "cell": cell},
                sig="roundtrip(normal)", b=b, d=d)


def mixed(ctx, rng):
    """Several variables, each with its own law and its own local law."""
    from statistics import NormalDist
    dim = int(rng.randint(2, 4))
    b, d = int(rng.randint(2, 5)), int(rng.randint(1, 4))

    def law():
        if rng.rand() < 0.5:
            a, w = int(rng.randint(-2, 3)), int(rng.randint(1, 5))
            return tensap.UniformRandomVariable(a, a + w), (lambda v: (v - a) / w), (lambda u: a + w * u), (lambda: rng.uniform(a + 0.01 * w, a + 0.99 * w))
        m, s = int(rng.randint(-2, 3)), int(rng.randint(1, 4))
        N = NormalDist(m, s)
        return tensap.NormalRandomVariable(m, s), N.cdf, N.inv_cdf, (lambda: m + s * rng.uniform(-2, 2))

    Xs, Ys = [law() for _ in range(dim)], [law() for _ in range(dim)]
    own = rng.rand() < 0.7
    tz = T(b, d, dim, tensap.RandomVector([x[0] for x in Xs]), *([tensap.RandomVector([y[0] for y in Ys])] if own else []))
    tz.ordering_type = int(rng.randint(1, 3))
    x = np.array([[np.round(X[3](), 3) + 0.00037 for X in Xs] for _ in range(4)])
    u = np.array([[X[1](v) for X, v in zip(Xs, r)] for r in x]) * b**d
    cell = np.floor(u).astype(int)
    f = u - cell
    if np.any(f < 1e-6) or np.any(f > 1 - 1e-6) or np.any(u < 0) or np.any(u >= b**d):
        return
    y = np.array([[Y[2](v) for Y, v in zip(Ys, r)] for r in f]) if own else f

    def body():
        z = tz.map(x)
        return z, tz.inverse_map(z)

    fl = lambda a: vp.fixs(np.ravel(a), 10000)  # noqa: E731
    ctx.observe("mixed", body, lambda v: {"x": fl(x), "back": fl(v[1]), "index": [vp.ints(r) for r in v[0][:, :dim * d]], "rest": fl(v[0][:, dim * d:])},
                y=fl(y), cell=cell.tolist(), b=b, d=d, ordering=tz.ordering_type, sig="mixed(%d)" % tz.ordering_type)


def bases(ctx, rng):
    b, d, dim, h = int(rng.randint(2, 5)), int(rng.randint(1, 4)), int(rng.randint(1, 3)), int(rng.randint(0, 4))
    tz = T(b, d, dim)
    ctx.observe("bases", lambda: tz.tensorized_function_functional_bases(h), lambda v: {"card": [int(p.cardinal()) for p in v.bases]},
                sig="functional_bases", b=b, d=d, dim=dim, h=h)
    # bases for the points given as one function, one basis or a list of bases
    how = rng.randint(3)
    deg = [int(v) for v in rng.randint(0, 4, dim)]
    pb = lambda k: tensap.PolynomialFunctionalBasis(tensap.LegendrePolynomials(), range(k + 1))  # noqa: E731
    u = np.reshape(np.arange(5) / 4, (-1, 1))

    def given():
        arg = [lambda: (lambda y: 3 * np.ones(np.shape(y))), lambda: pb(deg[0]), lambda: tensap.FunctionalBases([pb(k) for k in deg])][how]()
        return tz.tensorized_function_functional_bases(arg)

    want = [[0] * dim, [deg[0]] * dim, deg][how]

    def last(B_):
        ok = all(np.allclose(B_.bases[dim * d + k].eval(u), 3.0 if how == 0 else pb(want[k]).eval(u)) for k in range(dim))
        return {"card": [int(p.cardinal()) for p in B_.bases], "same": bool(ok)}

    ctx.observe("given", given, last, sig="functional_bases(%s)" % ("function", "basis", "bases")[how], b=b, d=d, dim=dim, degs=want)
    B, err = ctx.call(lambda: tz.tensorized_function_functional_bases(h))
    if err:
        return
    k = int(rng.randint(dim * d))
    # orthonormal for the uniform law on the digits
    ctx.observe("gram", lambda: B.bases[k].eval(np.arange(b)), lambda v: {"gram": vp.ints(v.T @ v / b)}, sig="digit basis", n=b)
    x = np.polynomial.legendre.leggauss(8)
    ctx.observe("gram", lambda: B.bases[dim * d].eval((x[0] + 1) / 2), lambda v: {"gram": vp.ints(v.T @ (x[1][:, None] / 2 * v))}, sig="point basis", n=h + 1)


def run(ctx):
    ctx.model("EncodingSpec", ["Bijective"], constants=["MB = %d" % ctx.n(3, 4), "MD = %d" % ctx.n(3, 4), "MQ = 3"],
              init="ModelInit", next_="ModelNext")
    for name, k in (("indices", ctx.n(500, 8000)), ("digits", ctx.n(600, 10000)), ("tensorizer", ctx.n(500, 6000)),
                    ("laws", ctx.n(60, 500)), ("mixed", ctx.n(120, 1200)), ("bases", ctx.n(40, 200))):
        rng = ctx.sub_rng(name)
        for _ in range(k):
            globals()[name](ctx, rng)
