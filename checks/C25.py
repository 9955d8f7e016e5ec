"""C25: splines and piecewise polynomials satisfy their definitions."""
import numpy as np
import tensap

import vp


def table(v, n, scale=None):
    v = np.asarray(v, dtype=float)
    if v.ndim != 2 or v.shape[0] != n:
        return [[[vp.BIG, 1]]]
    return [vp.rats(r if scale is None else r * scale) for r in v]


def arg(rng, x):
    return [x, list(x), np.reshape(x, (-1, 1))][rng.randint(3)]


# ------------------------------------------------------------------- splines
def splines(ctx, rng):
    m, u = int(rng.randint(0, 4)), int([1, 2, 4][rng.randint(3)])
    how = ["knots", "cardinal", "extra"][rng.randint(3)]
    n = int(rng.randint(2, 5))
    base = np.cumsum(np.concatenate(([int(rng.randint(-3, 3))], rng.randint(1, 3, n - 1)))).tolist()
    if how == "knots":
        t = np.cumsum(np.concatenate(([int(rng.randint(-3, 3))], rng.randint(1, 4, m + int(rng.randint(1, 4)))))).tolist()
        new = lambda: tensap.BSplinesFunctionalBasis(arg(rng, np.array(t) / u), m)  # noqa
    elif how == "cardinal":
        u = 2
        new = lambda: tensap.BSplinesFunctionalBasis.cardinal_bspline(m)  # noqa
    else:
        new = lambda: tensap.BSplinesFunctionalBasis.with_extra_knots(arg(rng, np.array(base) / u), m)  # noqa
    B, err = ctx.call(new)
    ok = not err
    if ok and how != "knots":
        t = [int(k) for k in np.round(np.array(B.knots) * u)]
        ctx.observe("knots", lambda: B, lambda b: {"t": vp.ints(np.round(b.knots * u, 9)), "card": vp.to_int(b.cardinal())}, m=m, u=u, how=how, base=base, sig="spline.knots." + how)
    elif not ok:
        ctx.observe("knots", new, lambda b: {}, sig="spline.new")
        return
    lo, hi = t[0], t[-1]
    x = rng.randint(lo - 1, hi + 2, 5)
    k = int(rng.randint(0, m + 2))
    xs = x / u
    rec = dict(t=t, m=m, u=u, x=x.tolist())
    ctx.observe("spline", lambda: B.eval(arg(rng, xs)), lambda v: {"v": table(v, 5)}, k=0, sig="spline.eval", **rec)
    ctx.observe("spline", lambda: B.eval_derivative(k, arg(rng, xs)), lambda v: {"v": table(v, 5)}, k=k, sig="spline.eval_derivative", **rec)
    c = rng.randint(-2, 3, len(t) - 1 - m)
    ctx.observe("comb", lambda: tensap.FunctionalBasisArray(c, B).eval(xs), lambda v: {"v": vp.rats(np.ravel(v))}, k=0, c=c.tolist(), sig="spline.array", **rec)
    ctx.observe("comb", lambda: tensap.SubFunctionalBasis(B, c.reshape(-1, 1).astype(float)).eval_derivative(k, xs), lambda v: {"v": vp.rats(np.ravel(v))}, k=k, c=c.tolist(), sig="spline.sub", **rec)
    if how == "extra":
        # inside the interval: partition of unity, polynomials are splines
        a, b = base[0], base[-1]
        y = a + (b - a) * (1 + rng.randint(0, 8, 4)) / 8
        def sums():
            return np.transpose([np.sum(B.eval(y / u), 1), np.sum(B.eval_derivative(1, y / u), 1)])
        ctx.observe("unity", sums, lambda v: {"v": table(v, 4)}, sig="spline.unity")
        ctx.observe("unity", lambda: [[float(B.measure.support()[0] == a / u and B.measure.support()[1] == b / u and B.ndim() == 1 and not B.is_orthonormal), 0]], lambda v: {"v": table(v, 1)}, sig="spline.measure")
        q = rng.randint(-2, 3, int(rng.randint(1, m + 2)))
        fun = lambda s: np.polyval(q[::-1], np.ravel(s) * u)  # noqa

        def interpolated():
            pts = B.magic_points(np.linspace(a, b, 8 * len(t) + 1)[1:] / u)[0]
            f = B.interpolate(fun if rng.rand() < 0.5 else fun(pts), pts)
            return np.ravel(f.eval(y / u))
        ctx.observe("poly", interpolated, lambda v: {"v": vp.rats(np.round(v, 10))}, c=q.tolist(), x=[vp.rat(s) for s in y], sig="spline.interpolate")

        def projected():
            G = np.polynomial.legendre.leggauss(m + 2)
            T = np.array(base) / u
            pts = np.concatenate([p + (1 + G[0]) * (r - p) / 2 for p, r in zip(T[:-1], T[1:])])
            w = np.concatenate([G[1] * (r - p) / 2 for p, r in zip(T[:-1], T[1:])])
            return np.ravel(B.projection(lambda s: fun(s), tensap.IntegrationRule(pts.reshape(-1, 1), w)).eval(y / u))
        ctx.observe("poly", projected, lambda v: {"v": vp.rats(np.round(v, 10))}, c=q.tolist(), x=[vp.rat(s) for s in y], sig="spline.project")


def dilated(ctx, rng):
    m, b, lev = int(rng.randint(0, 4)), int(rng.randint(2, 5)), int(rng.randint(0, 3))
    if b ** lev > 9:
        lev = 1
    D = tensap.DilatedBSplines(m, b) if b != 2 or rng.rand() < 0.5 else tensap.DilatedBSplines(m)
    pairs = lambda i: [[int(p), int(q)] for p, q in zip(*i)]  # noqa
    ctx.observe("levels", lambda: D.indices_with_level(lev), lambda i: {"ind": pairs(i), "card": -1}, m=m, b=b, lev=lev, one=True, sig="dilated.level")
    ctx.observe("levels", lambda: D.indices_with_level_bounded_by(lev), lambda i: {"ind": pairs(i), "card": -1}, m=m, b=b, lev=lev, one=False, sig="dilated.levels")
    ctx.observe("levels", lambda: tensap.DilatedBSplinesFunctionalBasis.with_level_bounded_by(m, b, lev), lambda h: {"ind": pairs(h.indices), "card": vp.to_int(h.cardinal())}, m=m, b=b, lev=lev, one=False, sig="dilated.basis")
    n = int(rng.randint(1, 6))
    l = rng.randint(0, lev + 1, n)
    j = np.array([int(rng.randint(-m - 1, b ** q + 1)) for q in l])
    x = rng.randint(-1, 2 * b ** lev + 2, 4) / (2.0 * b ** lev)
    k = int(rng.randint(0, m + 2))
    rec = dict(m=m, b=b, ind=pairs((l, j)), x=[vp.rat(s) for s in x])
    ind = [(l, j), [l, j], [list(l), list(j)]][rng.randint(3)]
    unit = float(b) ** (-0.5 * l)
    H = lambda: tensap.DilatedBSplinesFunctionalBasis(D, ind)  # noqa
    ctx.observe("dilated", lambda: H().eval(x) if rng.rand() < 0.5 else D.eval(ind, arg(rng, x)), lambda v: {"v": table(v, 4, unit)}, k=0, sig="dilated.eval", **rec)
    ctx.observe("dilated", lambda: H().eval_derivative(k, x) if rng.rand() < 0.5 else D.eval_derivative(k, ind, arg(rng, x)),
                lambda v: {"v": table(v, 4, unit * float(b) ** (-1.0 * k * l))}, k=k, sig="dilated.derivative", **rec)
    c = rng.randint(-2, 3, n)
    ctx.observe("unity", lambda: np.reshape(np.ravel(tensap.FunctionalBasisArray(c, H()).eval(x)) - D.eval(ind, x) @ c + (H().ndim() == 1), (-1, 1)), lambda v: {"v": table(np.round(v, 9), 4)}, sig="dilated.array")


# --------------------------------------------------------------- piecewise
def pieces(ctx, rng):
    ne = int(rng.randint(1, 4))
    how = ["new", "np", "hp", "adapted"][rng.randint(4)]
    a = int(rng.randint(-2, 2))
    b = a + int(rng.randint(1, 4))
    q = int(rng.randint(0, 4))
    qs = rng.randint(0, 4, ne)
    s = []
    if how == "new":
        ne = len(qs)
        pts = np.cumsum(np.concatenate(([a], rng.randint(1, 5, ne) / 2.0)))
        deg = [q] * ne if rng.rand() < 0.4 else qs.tolist()
        new = lambda: tensap.PiecewisePolynomialFunctionalBasis(arg(rng, pts), q if deg == [q] * ne else deg)  # noqa
    elif how in ("np", "hp"):
        d = [q] if rng.rand() < 0.5 else qs.tolist()
        dd = d[0] if len(d) == 1 else d
        # h between the length for ne elements and the one for ne - 1
        h = (b - a) / (ne - 0.25 * rng.randint(3))
        new = (lambda: tensap.PiecewisePolynomialFunctionalBasis.np(a, b, ne, dd)) if how == "np" else (lambda: tensap.PiecewisePolynomialFunctionalBasis.hp(a, b, h, dd))  # noqa
    else:
        b = a + int(rng.randint(1, 4))
        cand = list(range(a, b + 1))
        while True:
            s = sorted(int(k) for k in rng.permutation(cand)[: rng.randint(1, len(cand) + 1)])
            e = sorted({a, b} | set(s))
            if all(e[i] in s or e[i + 1] in s for i in range(len(e) - 1)):
                break
        d = [0]
        h = 2.0 ** (-ne) * [1, 1, 1.5][rng.randint(3)] if ne > 0 else 0.5
        new = lambda: tensap.PiecewisePolynomialFunctionalBasis.singularityhp_adapted(a, b, s[0] if len(s) == 1 and rng.rand() < 0.5 else s, h)  # noqa
    B, err = ctx.call(new)
    ok = not err
    if how != "new" or not ok:
        ctx.observe("mesh", new, lambda B: {"p": vp.rats(B.points), "deg": vp.ints(B.p), "card": vp.to_int(B.cardinal()), "dom": vp.rats(B.domain())},
                    how=how, a=a, b=b, s=s, ne=ne, q=d if how in ("np", "hp") else [0], sig="pieces.mesh." + how)
    if not ok:
        return
    p, deg = np.array(B.points, dtype=float), [int(k) for k in B.p]
    n = len(deg)
    rec = dict(p=vp.rats(p), deg=deg)
    inside = lambda k: p[0] + (p[-1] - p[0]) * rng.randint(0, 9, k) / 8  # noqa
    x = np.concatenate((inside(3), rng.choice(p, 2)))
    X = [vp.rat(t) for t in x]
    cols = [(i, j) for i in range(n) for j in range(deg[i] + 1)]
    unit = np.array([np.sqrt((p[i + 1] - p[i]) / (2 * j + 1)) for i, j in cols])
    k = int(rng.randint(0, 3))
    sel = None if rng.rand() < 0.6 else [int(j) for j in rng.permutation(len(cols))[: rng.randint(1, len(cols) + 1)]]
    S = list(range(len(cols))) if sel is None else sel
    extra = [] if sel is None else [sel]
    ctx.observe("pieces", lambda: B.eval(arg(rng, x), *extra), lambda v: {"v": table(v, 5, unit[S])}, k=0, x=X, sel=[j + 1 for j in S], sig="pieces.eval", **rec)
    ctx.observe("pieces", lambda: B.eval_derivative(k, arg(rng, x), *extra), lambda v: {"v": table(v, 5, unit[S])}, k=k, x=X, sel=[j + 1 for j in S], sig="pieces.eval_derivative", **rec)
    ctx.observe("pmean", lambda: B.mean() if rng.rand() < 0.5 else B.expectation(), lambda v: {"v": vp.rats(np.array(v) * np.abs(v))}, sig="pieces.mean", **rec)
    z = np.concatenate((x, [p[0] - 1, p[-1] + 1]))
    ctx.observe("where", lambda: B.element_number(arg(rng, z)), lambda e: {"e": vp.ints(np.array(e) + 1)}, x=[vp.rat(t) for t in z], sig="pieces.element", **rec)
    ctx.observe("nodes", lambda: B.interpolation_points(), lambda y: {"pts": vp.rats(np.round(np.ravel(y) * 2 ** 20) / 2 ** 20, 2 ** 20)}, open=True, sig="pieces.interpolation_points", **rec)
    ctx.observe("nodes", lambda: B.magic_points(), lambda y: {"pts": vp.rats(np.round(np.ravel(y[0] if isinstance(y, tuple) else y) * 2 ** 20) / 2 ** 20, 2 ** 20)}, open=False, sig="pieces.magic_points", **rec)
    ctx.observe("unity", lambda: [[float(B.is_orthonormal and B.ndim() == 1 and B.cardinal() == len(cols)), 0]], lambda v: {"v": table(v, 1)}, sig="pieces.attributes")
    # orthonormal for the measure of the basis
    G = np.polynomial.legendre.leggauss(max(deg) + 1)
    pts = np.concatenate([l + (1 + G[0]) * (r - l) / 2 for l, r in zip(p[:-1], p[1:])])
    rule = tensap.IntegrationRule(pts.reshape(-1, 1), np.concatenate([G[1] * (r - l) / 2 for l, r in zip(p[:-1], p[1:])]))
    ctx.observe("unity", lambda: [np.roll(np.round(r, 9), -i) for i, r in enumerate(B.gram_matrix(rule))], lambda v: {"v": table(v, len(cols))}, sig="pieces.gram")
    # functions of the space are their own interpolation and projection
    poly = [rng.randint(-2, 3, j + 1).tolist() for j in deg]

    def fun(t):
        t = np.ravel(t)
        e = np.clip(np.searchsorted(p, t, side="right") - 1, 0, n - 1)
        return np.array([np.polyval(poly[i][::-1], s) for i, s in zip(e, t)])

    def same(f):
        return lambda: np.round(np.ravel(f().eval(x)), 10)
    mode = rng.randint(4)
    if mode == 0:
        f = lambda: B.interpolate(fun)  # noqa
    elif mode == 1:
        f = lambda: B.interpolate(fun(B.interpolation_points()), B.interpolation_points())  # noqa
    elif mode == 2:
        f = lambda: B.projection(fun, rule)  # noqa
    else:
        f = lambda: B.least_squares_projection(fun, rule)  # noqa
    ctx.observe("piecewise", same(f), lambda v: {"v": vp.rats(v)}, poly=poly, x=X, sig="pieces.reproduce%d" % mode, **rec)
    # basis of one variable of a product space
    L = tensap.PolynomialFunctionalBasis(tensap.LegendrePolynomials(), range(2))
    ctx.observe("piecewise", lambda: tensap.FunctionalTensor(tensap.FullTensor(np.outer(np.ravel(B.interpolate(fun).data), [1.0, 0.0])), tensap.FunctionalBases([B, L])).eval(np.transpose([x, x])),
                lambda v: {"v": vp.rats(np.round(np.ravel(v), 10))}, poly=poly, x=X, sig="pieces.product", **rec)


def run(ctx):
    for m in ([0, 1, 2] if ctx.tier == "quick" else [0, 1, 2, 3]):
        ctx.model("SplineSpec", ["Divided", "Nonneg", "Unity", "Leibniz", "Dilates", "Orthogonal", "LegD", "Meshes"], constants=["TMAX = 9", "M = %d" % m])
    rng = ctx.sub_rng("splines")
    np.random.seed(ctx.seed)
    for _ in range(ctx.n(100, 1500)):
        splines(ctx, rng)
        dilated(ctx, rng)
        pieces(ctx, rng)
