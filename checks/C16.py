"""C16: greedy magic-point selection follows its definition."""
import numpy as np
import scipy.sparse
import tensap

import vp


def rank(F):
    return int(np.linalg.matrix_rank(np.array(F, dtype=float)))


def ij(v):
    return {"i": vp.one(v[0]), "j": vp.one(v[1])}


def steps(F, option):
    """Number of steps that are possible without a vanishing pivot."""
    n = min(len(F), len(F[0]))
    if option == "left_right":
        return rank(F)
    A = np.array(F, dtype=float)
    if option == "right":
        A = A.T
    k = 0
    while k < n and np.linalg.matrix_rank(A[:, : k + 1]) == k + 1:
        k += 1
    return k


def matrix(ctx, rng, F):
    for option in ("left_right", "left", "right"):
        m = steps(F, option)
        if m == 0:
            continue
        for n in {m, int(rng.randint(1, m + 1))}:
            arg = np.array(F, dtype=float)
            if rng.rand() < 0.3:
                # an exact scaling changes no comparison
                arg = arg * 2.0 ** int(rng.randint(-80, 81))
            if rng.rand() < 0.2:
                arg = arg.tolist()
            elif rng.rand() < 0.2:
                arg = scipy.sparse.csr_matrix(arg)
            ctx.observe("indices", lambda: tensap.magic_indices(arg, n, option), ij, sig="magic_indices(%s)" % option, F=F, n=n, option=option)
        if m == min(len(F), len(F[0])):
            ctx.observe("indices", lambda: tensap.magic_indices(np.array(F, dtype=float), option=option), ij,
                        sig="magic_indices(%s,all)" % option, F=F, n=m, option=option)
            if option == "left_right":
                ctx.observe("indices", lambda: tensap.magic_indices(np.array(F, dtype=float)), ij, sig="magic_indices", F=F, n=m, option=option)


def basis_of(rng, d):
    """A basis with integer values at integer points, its integer evaluations."""
    if d == 1:
        k = rng.randint(3)
        if k == 0:
            deg = sorted(rng.choice(4, int(rng.randint(1, 4)), replace=False).tolist())
            return tensap.PolynomialFunctionalBasis(tensap.CanonicalPolynomials(), deg)
        if k == 1:
            n = int(rng.randint(1, 5))
            return tensap.DeltaFunctionalBasis(np.arange(4))
        fs = [lambda x: 1 + 0 * x, lambda x: np.minimum(x, 1), lambda x: (x - 1) ** 2, lambda x: x * (x - 2), lambda x: np.abs(x - 3)]
        sel = rng.permutation(len(fs))[: int(rng.randint(1, 4))]
        return tensap.UserDefinedFunctionalBasis([fs[i] for i in sel])
    fs = [lambda x: 1 + 0 * x[:, 0], lambda x: x[:, 0], lambda x: x[:, 1], lambda x: x[:, 0] * x[:, 1], lambda x: x[:, 0] - x[:, -1] ** 2]
    sel = rng.permutation(len(fs))[: int(rng.randint(1, 5))]
    return tensap.UserDefinedFunctionalBasis([fs[i] for i in sel], input_dim=2)


def points(ctx, rng):
    d = int(rng.randint(1, 3))
    B = basis_of(rng, d)
    n = B.cardinal()
    if d == 1:
        x = rng.permutation(6)[: int(rng.randint(min(n, 6), 7))].astype(float)
        if isinstance(B, tensap.DeltaFunctionalBasis):
            x = rng.permutation(4).astype(float)
    else:
        x = rng.randint(0, 3, (int(rng.randint(n, n + 5)), 2)).astype(float)
    F, err = ctx.call(lambda: np.asarray(B.eval(x if d > 1 else x.reshape(-1, 1))))
    if err or F.shape != (len(x), n) or not np.allclose(F, np.round(F)) or np.abs(F).max() > 30 or len(x) < n:
        return
    Fi = [vp.ilist(r) for r in F]
    if np.linalg.matrix_rank(F) < n or (n == 4 and np.abs(F).max() > 9):
        return
    xi = [vp.ilist(r) for r in np.reshape(x, (len(x), -1))]
    arg = x if d > 1 or rng.rand() < 0.5 else x.reshape(-1, 1)

    def out(v):
        return {"i": vp.one(v[1]), "points": [vp.ilist(r) for r in v[0]], "leb": vp.fix(v[2]["lebesgue_constant"], 1000)}

    ctx.observe("points", lambda: B.magic_points(arg), out, F=Fi, x=xi, J=[], option="left_right", sig="magic_points")
    J = rng.permutation(n)
    ctx.observe("points", lambda: B.magic_points(arg, J), out, F=Fi, x=xi, J=vp.one(J), option="left", sig="magic_points(J)")
    # interpolation of a function of the space at the magic points
    c = rng.randint(-3, 4, n)
    want = vp.ilist(F @ c)
    g = lambda u: np.asarray(B.eval(u)) @ c  # noqa: E731
    val = lambda v: {"val": vp.ints(v, tol=1e-5)}  # noqa: E731
    px = x if d > 1 else x.reshape(-1, 1)
    ctx.observe("interp", lambda: B.interpolate(g, B.interpolation_points(arg)).eval(px), val, want=want, sig="interpolate")

    def vals():
        p = B.magic_points(arg)[0]
        return B.interpolate(g(p), p).eval(px)

    ctx.observe("interp", vals, val, want=want, sig="interpolate(values)")


def auto(ctx, rng):
    """Points chosen by the library from the measure of the basis."""
    deg = int(rng.randint(0, 5))
    k = rng.randint(3)
    if k == 0:
        p = tensap.LegendrePolynomials()
    elif k == 1:
        p = tensap.HermitePolynomials()
    else:
        p = tensap.DiscretePolynomials(tensap.DiscreteRandomVariable(np.reshape(np.arange(deg + 2.0), (-1, 1))))
    B = tensap.PolynomialFunctionalBasis(p, range(deg + 1))
    c = rng.randint(-3, 4, deg + 1)
    x = np.reshape(np.arange(deg + 1) / 4, (-1, 1))
    g = lambda u: np.ravel(np.polynomial.polynomial.polyval(np.ravel(u), c))  # noqa: E731
    S = 4**deg
    ctx.observe("unisolvent", lambda: B.interpolate(g).eval(x), lambda v: {"val": vp.ints(v, S, tol=1e-4), "card": int(B.cardinal())},
                want=vp.ints(g(x), S), sig="interpolate(automatic,%s)" % ("legendre", "hermite", "discrete")[k])


def run(ctx):
    for nr, nc, e in ctx.n([(2, 2, 2), (2, 3, 1)], [(2, 2, 3), (2, 3, 2), (3, 3, 1), (3, 2, 2)]):
        ctx.model("MagicSpec", ["Laws"], constants=["NR = %d" % nr, "NC = %d" % nc, "EMAX = %d" % e], init="ModelInit", next_="ModelNext")
    rng = ctx.sub_rng("matrices")
    for _ in range(ctx.n(700, 10000)):
        a, b = int(rng.randint(1, 6)), int(rng.randint(1, 6))
        F = rng.randint(-5, 6, (a, b))
        t = rng.randint(4)
        if t == 0 and min(a, b) > 1:
            k = int(rng.randint(1, min(a, b)))
            F = rng.randint(-1, 2, (a, k)) @ rng.randint(-2, 3, (k, b))
        elif t == 1:
            F = rng.randint(-1, 2, (a, b))
        if np.abs(F).max() > 5 or not F.any():
            continue
        matrix(ctx, rng, F.tolist())
    rng = ctx.sub_rng("points")
    for _ in range(ctx.n(400, 5000)):
        points(ctx, rng)
    rng = ctx.sub_rng("auto")
    for _ in range(ctx.n(60, 600)):
        auto(ctx, rng)
