"""C18: functional bases and tensors evaluate what they represent."""
import math

import numpy as np
import tensap

import formats as F
import vp


# ------------------------------------------------------- univariate families
def family(rng, kinds=("legendre", "hermite", "canon", "rows", "delta"), full=False):
    """A univariate basis, its description and its scaling s: the real basis
    function is the described one divided by s."""
    kind = kinds[rng.randint(len(kinds))]
    m, s = (0, 1) if rng.rand() < 0.6 or kind == "delta" else (int(rng.randint(-1, 2)), int(rng.randint(1, 3)))
    n = int(rng.randint(1, 4))
    d = {"kind": kind, "idx": [], "rows": [], "m": 0, "s": 1, "v": [], "w": []}
    if kind in ("legendre", "hermite", "canon"):
        idx = list(range(n)) if full or rng.rand() < 0.6 else [int(k) for k in rng.permutation(4)[:n]]
        d["idx"] = idx
    if kind == "legendre":
        X = tensap.UniformRandomVariable(m - s, m + s)
        h = [np.prod([k * k / (4 * k * k - 1.0) for k in range(1, j + 1)]) for j in idx]
    elif kind == "hermite":
        X = tensap.NormalRandomVariable(m, s)
        h = [math.factorial(j) for j in idx]
    if kind in ("legendre", "hermite"):
        d["m"], d["s"] = m, s
        return tensap.PolynomialFunctionalBasis(X.orthonormal_polynomials(), idx if rng.rand() < 0.5 else np.array(idx)), d, np.sqrt(np.array(h, dtype=float))
    if kind == "canon":
        return tensap.PolynomialFunctionalBasis(tensap.CanonicalPolynomials(tensap.UniformRandomVariable(-1, 1)), idx), d, np.ones(len(idx))
    if kind == "rows":
        rows = rng.randint(-2, 3, (n, int(rng.randint(1, 4))))
        d["rows"] = rows.tolist()
        funs = [lambda x, r=r: np.polyval(r[::-1], np.ravel(x)) for r in rows.astype(float)]
        return tensap.UserDefinedFunctionalBasis(funs, tensap.UniformRandomVariable(-1, 1), *([1] if rng.rand() < 0.5 else [])), d, np.ones(n)
    v = rng.permutation(5)[:n] - 2
    w = rng.randint(1, 4, n)
    d["v"], d["w"] = v.tolist(), w.tolist()
    if rng.rand() < 0.5:
        d["w"] = [1] * n
        return tensap.DeltaFunctionalBasis(v, *([tensap.DiscreteRandomVariable(v)] if rng.rand() < 0.5 else [])), d, np.ones(n)
    return tensap.DeltaFunctionalBasis(v, tensap.DiscreteRandomVariable(v, w / w.sum())), d, np.ones(n)


def size(d):
    return max(len(d["idx"]), len(d["rows"]), len(d["v"]))


class Fun:
    """A represented function: obj is the real object (or basis), coef[i, o]
    the integer coefficient of the described term i in output o; oscale is the
    scaling of the outputs (described = oscale * real)."""

    def __init__(self, fams, terms, coef, obj, oscale=None):
        self.fams, self.terms, self.coef, self.obj = fams, np.array(terms, dtype=int).reshape(-1, len(fams)), np.array(coef), obj
        self.oscale = np.ones(self.coef.shape[1]) if oscale is None else oscale
        self.d = len(fams)
        self.kinds = {f["kind"] for f in fams}

    def rec(self):
        return {"fams": self.fams, "terms": (self.terms + 1).tolist(), "coef": self.coef.tolist()}

    def points(self, rng, n=3):
        x = rng.randint(-2, 3, (n, self.d)).astype(float)
        for k, f in enumerate(self.fams):
            if f["kind"] == "delta":
                x[:, k] = rng.choice(f["v"] + [3], n)
        return x

    def value(self, x):
        """Reference values, used only to feed interpolations and projections."""
        x = np.reshape(x, (-1, self.d))
        V = []
        for k, f in enumerate(self.fams):
            t = (x[:, k] - f["m"]) / f["s"]
            cols = []
            for j in range(size(f)):
                if f["kind"] == "delta":
                    cols.append((x[:, k] == f["v"][j]).astype(float))
                elif f["kind"] == "rows":
                    cols.append(np.polyval(f["rows"][j][::-1], t))
                elif f["kind"] == "canon":
                    cols.append(t ** f["idx"][j])
                else:
                    p, q = np.ones(t.shape), np.zeros(t.shape)
                    for i in range(f["idx"][j]):
                        b = (i if f["kind"] == "hermite" else i * i / (4 * i * i - 1.0)) if i else 0
                        p, q = t * p - b * q, p
                    cols.append(p)
            V.append(np.array(cols).T)
        H = np.ones((len(x), len(self.terms)))
        for k in range(self.d):
            H = H * V[k][:, self.terms[:, k]]
        return H @ self.coef


def given(rng, x):
    """Points as the user may give them."""
    if x.shape[1] == 1 and rng.rand() < 0.5:
        return x[:, 0]
    return x


def deviation(rng, T):
    """The variance, or the square of the standard deviation (the root of a
    variance that vanishes up to rounding is not looked at)."""
    v = T.variance()
    return T.std() ** 2 if np.all(np.asarray(v) > 1e-8) and rng.rand() < 0.4 else v


def tab(v, f, n):
    """Values as described outputs: n rows of scaled rationals."""
    v = np.asarray(v, dtype=float)
    if v.size != n * f.coef.shape[1]:
        return [[[vp.BIG, 1]]]
    v = np.reshape(v, (n, -1), order="F" if v.ndim > 2 else "C")
    return [vp.rats(r * f.oscale) for r in v]


def ev(ctx, f, x, fn, sig, ns=None):
    ctx.observe("ev", fn, lambda v: {"v": tab(v, f, len(x))}, x=[vp.rats(r) for r in x], ns=ns or [0] * f.d, sig=sig, **f.rec())


def per(ctx, op, f, fn, sig, power=1, **kw):
    ctx.observe(op, fn, lambda v: {"v": vp.rats(np.ravel(np.asarray(v, dtype=float), order="F") * f.oscale ** power) if np.size(v) == f.coef.shape[1] else [[vp.BIG, 1]]}, sig=sig, **kw, **f.rec())


# -------------------------------------------------------------------- bases
def rbasis(rng, kinds, d=None, full=False, what=None):
    """A basis as Fun whose outputs are its functions."""
    d = d or int(rng.randint(1, 4))
    what = what or ["uni", "sparse", "full"][rng.randint(3)]
    if what == "uni":
        d = 1
    B, D, S = zip(*[family(rng, kinds, full) for _ in range(d)])
    if rng.rand() < 0.2 and what != "uni":
        B, D, S = [B[0]] * d, [D[0]] * d, [S[0]] * d
        bases = tensap.FunctionalBases.duplicate(B[0], d)
    else:
        bases = tensap.FunctionalBases(list(B)) if what != "uni" else None
    card = [size(x) for x in D]
    if what == "uni":
        terms, obj = np.arange(card[0]).reshape(-1, 1), B[0]
    elif what == "full":
        terms = np.array([np.unravel_index(k, card, order="F") for k in range(int(np.prod(card)))])
        obj = tensap.FullTensorProductFunctionalBasis(bases if rng.rand() < 0.6 else list(B))
    else:
        al = np.array([np.unravel_index(k, card, order="F") for k in range(int(np.prod(card)))])
        if full:
            lev = rng.randint(sum(c - 1 for c in card) + 1)
            terms = al[np.sum(al, 1) <= lev]
        else:
            terms = al[np.sort(rng.permutation(len(al))[: rng.randint(1, min(len(al), 7) + 1)])]
            terms = terms[rng.permutation(len(terms))]
        obj = tensap.SparseTensorProductFunctionalBasis(bases, tensap.MultiIndices(terms))
    sc = np.array([np.prod([S[k][t[k]] for k in range(d)]) for t in terms])
    f = Fun(list(D), terms, np.eye(len(terms), dtype=int), obj, sc)
    f.what, f.S, f.bases = what, S, bases
    return f


POLY = ("legendre", "hermite", "canon")
ORTH = ("legendre", "hermite")


def bases(ctx, rng):
    """Values, derivatives and statistics of the functions of a basis."""
    f = rbasis(rng, ("legendre", "hermite", "canon", "rows", "delta"))
    B, x = f.obj, f.points(rng)
    ev(ctx, f, x, lambda: B.eval(given(rng, x)), "basis.eval." + f.what)
    per(ctx, "mean", f, lambda: B.mean(), "basis.mean." + f.what) if f.kinds <= set(POLY) else None
    if f.kinds <= set(POLY) and f.what != "full":
        ns = [int(k) for k in rng.randint(0, 3, f.d)]
        ev(ctx, f, x, lambda: B.eval_derivative(ns[0] if f.what == "uni" else ns, given(rng, x)), "basis.eval_derivative." + f.what, ns)
        G = lambda: np.asarray(B.gram_matrix().todense() if hasattr(B.gram_matrix(), "todense") else B.gram_matrix())  # noqa
        if f.what == "uni" or f.kinds <= set(ORTH) or f.kinds <= {"canon"}:
            ctx.observe("gram", G, lambda v: {"v": [vp.rats(r) for r in v * np.outer(f.oscale, f.oscale)]}, sig="basis.gram." + f.what, **f.rec())
    if f.kinds <= set(POLY):
        k = int(rng.randint(f.d))
        if f.what == "sparse":
            ctx.observe("ev", lambda: B.eval_jacobian(x)[:, :, k], lambda v: {"v": tab(v, f, len(x))}, x=[vp.rats(r) for r in x], ns=[int(j == k) for j in range(f.d)], sig="basis.jacobian", **f.rec())
        if f.what == "uni" and f.fams[0]["idx"] == list(range(len(f.fams[0]["idx"]))):
            n = int(rng.randint(0, 3))
            ev(ctx, f, x, lambda: B.derivative(n).eval(x), "basis.derivative", [n])
    if f.what == "sparse":
        p = [1, 2, np.inf][rng.randint(3)]
        deg = [sum(int(t) for t in r) if p == 1 else int(max(r)) if p == np.inf else int(np.sum(r ** 2)) for r in f.terms]
        lev = sorted(set(deg))
        ctx.observe("path", lambda: B.adaptation_path(p) if p != 1 or rng.rand() < 0.5 else B.adaptation_path(), lambda P: {"cols": [[int(i) + 1 for i in np.nonzero(c)[0]] for c in np.transpose(P)]},
                    deg=deg, levels=lev, sig="basis.adaptation_path", **f.rec())
    if f.what in ("sparse", "full") and f.d > 1:
        restructured(ctx, rng, f)
    if f.what == "full" and f.d > 0:
        ctx.observe("mean", lambda: f.bases.mean(), lambda v: {"v": vp.rats(np.array([np.prod([v[k][t[k]] for k in range(f.d)]) for t in f.terms]) * f.oscale)}, sig="bases.mean", **f.rec()) if f.kinds <= set(POLY) else None
        Hs = lambda H: [np.prod([np.asarray(H[k])[i, t[k]] for k in range(f.d)]) for i in range(len(x)) for t in f.terms]  # noqa
        X = [x, [x[:, [k]] for k in range(f.d)], [x[:, k] for k in range(f.d)]][rng.randint(3)]
        ev(ctx, f, x, lambda: np.reshape(Hs(f.bases.eval(X)), (len(x), -1)), "bases.eval")
    # orthonormal basis of the same space
    if f.what == "uni" and f.kinds <= set(POLY):
        def orth():
            C = B.orthonormalize()
            G = C.underlying_basis.gram_matrix() if isinstance(C, tensap.SubFunctionalBasis) else C.gram_matrix()
            if isinstance(C, tensap.SubFunctionalBasis):
                assert C.is_orthonormal
                G = C.basis.T @ G @ C.basis
            return G
        ctx.observe("unit", orth, lambda G: {"v": [vp.rats(np.round(r, 10)) for r in G]}, sig="basis.orthonormalize")
    # a combination of the functions
    m = int(rng.randint(1, len(f.terms) + 1))
    C = rng.randint(-2, 3, (len(f.terms), m))
    g = Fun(f.fams, f.terms, C, None)
    sub = lambda: tensap.SubFunctionalBasis(B, f.oscale[:, None] * C)  # noqa
    ev(ctx, g, x, lambda: sub().eval(given(rng, x)), "sub.eval")
    if f.kinds <= set(POLY):
        per(ctx, "mean", g, lambda: sub().mean(), "sub.mean")
        if f.what != "full":
            ns = [int(k) for k in rng.randint(0, 2, f.d)]
            n = ns[0] if f.what == "uni" else ns
            ev(ctx, g, x, lambda: sub().eval_derivative(n, x), "sub.eval_derivative", ns)
            if f.what == "sparse" and all(h["idx"] == list(range(len(h["idx"]))) for h in f.fams):
                ev(ctx, g, x, lambda: sub().derivative(n).eval(x), "sub.derivative", ns)
            if f.kinds <= set(ORTH) or f.kinds <= {"canon"}:
                ctx.observe("gram", lambda: sub().gram_matrix(), lambda v: {"v": [vp.rats(r) for r in v]}, sig="sub.gram", **g.rec())
            if f.what == "sparse":
                k = int(rng.randint(f.d))
                ev(ctx, g, x, lambda: sub().eval_jacobian(x)[:, :, k], "sub.jacobian", [int(j == k) for j in range(f.d)])
        if f.kinds <= set(ORTH) and np.linalg.matrix_rank(C) == m:
            def orth2():
                S = sub().orthonormalize()
                return S.basis.T @ S.basis
            ctx.observe("unit", orth2, lambda G: {"v": [vp.rats(np.round(r, 9)) for r in G]}, sig="sub.orthonormalize")
    # equality
    h = rbasis(rng, POLY, d=f.d, what=f.what)
    same = rng.rand() < 0.5
    if f.kinds <= set(POLY):
        other = rebuild(rng, f) if same else h.obj
        want = same or (f.fams == h.fams and f.terms.tolist() == h.terms.tolist())
        ctx.observe("eq", lambda: B == other, lambda v: {"verdict": bool(v)}, want=bool(want), sig="basis.equal." + f.what)


def oflag(ctx, sig, fn, f):
    """The orthonormality announced by a basis is true, and announced when the
    basis is a product of orthonormal polynomials."""
    ctx.observe("oflag", fn, lambda b: {"flag": bool(b.is_orthonormal)}, s2=vp.rats(np.round(f.oscale ** 2, 12)), sig=sig, **f.rec())


def subspaces(ctx, rng):
    """Sub-bases of orthonormal bases, and products of them: inner products
    of their functions and announced orthonormality."""
    dense = lambda v: np.asarray(v.todense() if hasattr(v, "todense") else v)  # noqa
    d = int(rng.randint(1, 4))
    mats, fam = [], []
    for _ in range(d):
        n = int(rng.randint(2, 5))
        B = [tensap.UniformRandomVariable(-1, 1), tensap.NormalRandomVariable(), tensap.LebesgueMeasure(0, 4)][rng.randint(3)]
        C = np.zeros((n, int(rng.randint(1, n + 1))), dtype=int)
        shape = rng.randint(3)
        a = rng.permutation(n)
        for j in range(C.shape[1]):
            if shape == 0:  # columns of norm one
                u, v = [(5, 0), (3, 4), (4, -3), (0, -5), (4, 3)][rng.randint(5)]
                i, k = rng.permutation(n)[:2]
                C[i, j], C[k, j] = u, v
            elif shape == 1:  # orthonormal columns
                C[a[j], j] = 5
            else:
                C[:, j] = rng.randint(-5, 6, n)
        if shape == 1 and C.shape[1] > 1 and rng.rand() < 0.7:
            C[:, :2] = C[:, :2] @ np.array([[3, -4], [4, 3]]) // 5
        mats.append(C)
        fam.append(tensap.SubFunctionalBasis(tensap.PolynomialFunctionalBasis(B.orthonormal_polynomials(), range(n)), C / 5))
    card = [C.shape[1] for C in mats]
    al = np.array([np.unravel_index(k, card, order="F") for k in range(int(np.prod(card)))])
    what = ["uni", "full", "sparse"][rng.randint(3)] if d == 1 else ["full", "sparse"][rng.randint(2)]
    if what == "uni":
        B = fam[0]
    elif what == "full":
        B = tensap.FullTensorProductFunctionalBasis(tensap.FunctionalBases(fam))
    else:
        al = al[rng.permutation(len(al))[: rng.randint(1, 9)]]
        B = tensap.SparseTensorProductFunctionalBasis(tensap.FunctionalBases(fam), tensap.MultiIndices(al))
    if len(al) > 12:
        return
    G = (lambda: dense(B.gram_matrix())) if what != "full" else (lambda: dense(tensap.SparseTensorProductFunctionalBasis(tensap.FunctionalBases(fam), tensap.MultiIndices(al)).gram_matrix()))
    ctx.observe("subgram", lambda: (G(), B.is_orthonormal), lambda v: {"v": [[vp.rat(x, 16000, 1e-9) for x in r] for r in v[0]], "flag": bool(v[1])}, mats=[C.T.tolist() for C in mats], terms=(al + 1).tolist(), sig="sub.products." + what)


def structure(ctx, rng):
    """Flags, sizes, inner products of derivatives, orthonormalisation and
    points of the bases."""
    f = rbasis(rng, POLY if rng.rand() < 0.7 else ("legendre", "canon", "rows"), d=int(rng.randint(2, 4)), full=rng.rand() < 0.4)
    B, x = f.obj, f.points(rng)
    if f.kinds <= set(POLY):
        oflag(ctx, "flag." + f.what, lambda: B, f)
    if f.what == "uni":
        k = len(f.terms)
        ctx.observe("eq", lambda: (B.cardinal(), B.ndim(), np.ravel(B.domain()), np.ravel(B.measure.support()), B.storage()),
                    lambda v: {"verdict": bool(v[0] == k and v[1] == 1 and np.array_equal(v[2], v[3] if f.fams[0]["kind"] != "canon" else [-np.inf, np.inf]) and v[4] == 0)}, want=True, sig="basis.sizes.uni")
        return
    card = [size(h) for h in f.fams]
    ctx.observe("eq", lambda: (B.cardinal(), B.ndim(), len(B), list(f.bases.cardinals()), list(f.bases.cardinals([0])), f.bases.storage(), [np.ravel(t) for t in B.domain()], [np.ravel(b.domain()) for b in f.bases.bases]),
                lambda v: {"verdict": bool(v[:6] == (len(f.terms), f.d, f.d, card, card[:1], 0) and all(np.array_equal(a, b) for a, b in zip(v[6], v[7])) and len(v[6]) == f.d)}, want=True, sig="basis.sizes." + f.what)
    for o in [f.bases, f.bases.bases[0], tensap.FullTensorProductFunctionalBasis(f.bases) if f.what == "sparse" else tensap.SparseTensorProductFunctionalBasis(f.bases, tensap.MultiIndices(f.terms)), 3]:
        ctx.observe("eq", lambda: (B == o), lambda v: {"verdict": bool(v)}, want=False, sig="basis.equal.other")
    # removal of variables: the announced orthonormality follows
    order = [int(k) for k in rng.permutation(f.d)[: rng.randint(1, f.d)]]
    gone = [k for k in range(f.d) if k not in order]
    fams = [f.fams[k] for k in (order if rng.rand() < 0.5 else sorted(order))]
    how = "keep" if fams != [f.fams[k] for k in sorted(order)] or rng.rand() < 0.5 else "remove"
    if how == "remove":
        order = sorted(order)
        fams = [f.fams[k] for k in order]
    res = {}

    def cut():
        res["b"] = B.keep_bases(order) if how == "keep" else B.remove_bases(gone)
        return res["b"]
    try:
        cut()
    except Exception:  # noqa: recorded below
        pass
    if how == "keep":
        fams = [f.fams[k] for k in order]
    if f.what == "full":
        c2 = [size(h) for h in fams]
        terms = np.array([np.unravel_index(k, c2, order="F") for k in range(int(np.prod(c2)))])
    else:
        try:
            terms = np.array(res["b"].indices.array)
        except Exception:  # noqa
            terms = f.terms[:, order]
    sc = np.array([np.prod([f.S[order[k]][t[k]] for k in range(len(order))]) for t in terms])
    g = Fun(fams, terms, np.eye(len(terms), dtype=int), None, sc)
    y = g.points(rng)
    if f.what == "sparse":
        want = {tuple(t) for t in f.terms[:, order].tolist()}
        ctx.observe("eq", cut, lambda b: {"verdict": bool({tuple(t) for t in b.indices.array.tolist()} == want and b.cardinal() == len(want))}, want=True, sig="sparse.%s.indices" % how)
    ev(ctx, g, y, lambda: cut().eval(y), "%s.%s.values" % (f.what, how))
    if g.kinds <= set(POLY):
        oflag(ctx, "flag.%s.%s" % (f.what, how), cut, g)
    if not f.kinds <= set(POLY):
        return
    if f.what == "sparse" and all(h["idx"] == list(range(len(h["idx"]))) for h in f.fams):
        dens = lambda G: np.asarray(G.todense() if hasattr(G, "todense") else G)  # noqa
        ctx.observe("gramh1", lambda: dens(B.gram_matrix_h1_0()), lambda v: {"v": [vp.rats(r) for r in v * np.outer(f.oscale, f.oscale)]}, sig="gram_h1.sparse", **f.rec())
        m = int(rng.randint(1, len(f.terms) + 1))
        C = rng.randint(-2, 3, (len(f.terms), m))
        h = Fun(f.fams, f.terms, C, None)
        ctx.observe("gramh1", lambda: tensap.SubFunctionalBasis(B, f.oscale[:, None] * C).gram_matrix_h1_0(), lambda v: {"v": [vp.rats(r) for r in dens(v)]}, sig="gram_h1.sub", **h.rec())
        n = [int(k) for k in rng.randint(0, 2, f.d)]
        ctx.observe("eq", lambda: B.derivative(n), lambda b: {"verdict": bool((not b.is_orthonormal) or np.allclose(dens(tensap.FunctionalBasis.gram_matrix(b, f.bases.measure.gauss_integration_rule(4).integration_rule())), np.eye(b.cardinal())))},
                    want=True, sig="flag.derivative")
    # orthonormal basis of the same space
    if f.what == "full" or f.kinds <= set(ORTH) or f.kinds <= {"canon"}:
        C = rng.randint(-2, 3, (len(f.terms), 1))
        h = Fun(f.fams, f.terms, C, None)
        Q = f.bases.measure.gauss_integration_rule(4).integration_rule()

        def orth():
            O = B.orthonormalize()
            A = O.eval(Q.points)
            G = A.T @ np.diag(Q.weights) @ A
            u = O.projection(lambda t: h.value(t), Q)
            return G, O.is_orthonormal, u.eval(x)
        ctx.observe("spans", orth, lambda v: {"gram": [vp.rats(np.round(r, 9)) for r in v[0]], "flag": bool(v[1]), "v": tab(v[2], h, len(x))}, x=[vp.rats(r) for r in x], sig="orthonormalize." + f.what, **h.rec())
    # selected points belong to the candidates and are unisolvent
    if f.what == "full":
        grids = [np.array(rng.permutation(9)[: size(h) + int(rng.randint(0, 3))] - 4, dtype=float) for h in f.fams]
        if all(np.linalg.matrix_rank(b.eval(g)) == b.cardinal() for b, g in zip(f.bases.bases, grids)):
            pick = rng.randint(3)
            arg = [[g.reshape(-1, 1) for g in grids], tensap.FullTensorGrid(grids), [g for g in grids]][pick]
            ok = lambda P: all(np.size(p) == c and set(np.ravel(p)) <= set(g) and np.linalg.matrix_rank(b.eval(np.reshape(p, (-1, 1)))) == c for p, c, g, b in zip(P, card, grids, f.bases.bases))  # noqa
            ctx.observe("eq", lambda: f.bases.interpolation_points(arg), lambda P: {"verdict": bool(len(P) == f.d and ok(P))}, want=True, sig="points.bases")
            ctx.observe("eq", lambda: B.interpolation_points(arg), lambda v: {"verdict": bool(np.shape(v[0]) == (len(f.terms), f.d) and np.linalg.matrix_rank(B.eval(v[0])) == len(f.terms) and ok(v[1]))}, want=True, sig="points.full")
            ctx.observe("eq", lambda: f.bases.magic_points(arg), lambda v: {"verdict": bool(ok(v[0]) and all(np.array_equal(np.ravel(p), g[np.ravel(i)]) for p, i, g in zip(v[0], v[1], grids)))}, want=True, sig="points.magic")
            J = [list(range(size(h))) for h in f.fams]
            ctx.observe("eq", lambda: f.bases.magic_points(arg, J), lambda v: {"verdict": bool(ok(v[0]))}, want=True, sig="points.magic.subset")


def rebuild(rng, f):
    from copy import deepcopy
    return deepcopy(f.obj)


def restructured(ctx, rng, f):
    """Bases after removing, keeping or permuting variables."""
    d = f.d
    how = ["keep", "remove", "transpose"][rng.randint(3)]
    ind = [int(k) for k in rng.permutation(d)[: rng.randint(1, d)]]
    if how == "keep":
        order = ind
        fn = lambda: f.bases.keep_bases(ind)  # noqa
    elif how == "remove":
        order = [k for k in range(d) if k not in ind]
        fn = lambda: f.bases.remove_bases(ind)  # noqa
    else:
        order = [int(k) for k in rng.permutation(d)]
        fn = lambda: f.bases.transpose(order)  # noqa
    fams = [f.fams[k] for k in order]
    card = [size(x) for x in fams]
    terms = np.array([np.unravel_index(k, card, order="F") for k in range(int(np.prod(card)))])
    sc = np.array([np.prod([f.S[order[k]][t[k]] for k in range(len(order))]) for t in terms])
    g = Fun(fams, terms, np.eye(len(terms), dtype=int), None, sc)
    x = g.points(rng)
    deltas = any(h["kind"] == "delta" and not all(np.array(h["w"]) == h["w"][0]) for h in fams)

    def values(b):
        H = b.eval(x)
        return np.array([[np.prod([H[k][i, t[k]] for k in range(len(order))]) for t in terms] for i in range(len(x))])

    ev(ctx, g, x, lambda: values(fn()), "bases." + how)
    if g.kinds <= set(POLY):
        # the measure follows: means of the variables under the measure
        ctx.observe("eq", lambda: fn().measure, lambda m: {"verdict": bool(len(m.measures) == len(order) and all(a == b.measure for a, b in zip(m.measures, [f.bases.bases[k] for k in order])))},
                    want=True, sig="bases.%s.measure" % how)
    if f.what == "full" or how == "transpose":
        o = {"keep": lambda: f.obj.keep_bases(ind), "remove": lambda: f.obj.remove_bases(ind), "transpose": lambda: f.obj.transpose(order)}[how]
        if f.what == "sparse":
            g = Fun(fams, f.terms[:, order], np.eye(len(f.terms), dtype=int), None, f.oscale)
        ev(ctx, g, x, lambda: o().eval(x), "%s.%s" % (f.what, how))
        ctx.observe("eq", lambda: o().measure, lambda m: {"verdict": bool(len(m.measures) == len(order) and all(a == b.measure for a, b in zip(m.measures, [f.bases.bases[k] for k in order])))},
                    want=True, sig="%s.%s.measure" % (f.what, how)) if not deltas else None


# ----------------------------------------------------------- array functions
def rarray(rng, kinds, what=None, d=None, full=False, shape=None, b=None):
    b = b or rbasis(rng, kinds, d, full, what)
    shape = shape if shape is not None else [1, 1, [2], [3], [2, 2]][rng.randint(5)]
    no = int(np.prod(shape))
    C = rng.randint(-2, 3, (len(b.terms), no))
    if not C.any():
        C[0, 0] = 1
    data = np.reshape(b.oscale[:, None] * C, [len(b.terms)] + list(np.atleast_1d(shape)), order="F")
    if np.isscalar(shape) and rng.rand() < 0.5:
        data = data.ravel()
    f = Fun(b.fams, b.terms, C, tensap.FunctionalBasisArray(data, b.obj, shape) if not np.isscalar(shape) or rng.rand() < 0.5 else tensap.FunctionalBasisArray(data, b.obj))
    f.b, f.what, f.shape = b, b.what, shape
    return f


def arrays(ctx, rng):
    f = rarray(rng, ("legendre", "hermite", "canon", "rows", "delta"))
    x = f.points(rng)
    out = ".vec" if f.coef.shape[1] > 1 else ""
    ev(ctx, f, x, lambda: f.obj.eval(given(rng, x)) if rng.rand() < 0.5 else f.obj(given(rng, x)), "array.eval." + f.what + out)
    # vector space operations
    C2 = rng.randint(-2, 3, f.coef.shape)
    g = tensap.FunctionalBasisArray(np.reshape(f.b.oscale[:, None] * C2, f.obj.data.shape, order="F"), f.b.obj, f.shape)
    a, b, fn = [(1, 1, lambda: f.obj + g), (1, -1, lambda: f.obj - g), (-1, 0, lambda: -f.obj), (3, 0, lambda: f.obj * 3), (1, 2, lambda: f.obj + g * 2)][rng.randint(5)]
    ctx.observe("lin", lambda: fn().eval(x), lambda v: {"v": tab(v, f, len(x))}, a=a, b=b, coef2=C2.tolist(), ns=[0] * f.d, x=[vp.rats(r) for r in x], sig="array.lin" + out, **f.rec())
    if f.coef.shape[1] > 1 and np.size(f.shape) == 1:
        M = rng.randint(-2, 3, (f.coef.shape[1], int(rng.randint(1, 4))))
        h = Fun(f.fams, f.terms, f.coef @ M, None)
        ev(ctx, h, x, lambda: f.obj.matmul(M).eval(x), "array.matmul")
        T = np.triu(rng.randint(-1, 2, [f.coef.shape[1]] * 2), 1) + np.eye(f.coef.shape[1], dtype=int)
        h = Fun(f.fams, f.terms, f.coef @ np.round(np.linalg.inv(T)).astype(int), None)
        ev(ctx, h, x, lambda: f.obj.matdiv(T).eval(x), "array.matdiv")
    ctx.observe("eq", lambda: (f.obj.storage(), f.obj.sparse_storage(), f.obj.get_coefficients().shape), lambda v: {"verdict": bool(v[0] == f.coef.size and v[1] == np.count_nonzero(f.coef) and v[2] == f.obj.data.shape)}, want=True, sig="array.storage")
    if f.kinds <= set(POLY):
        per(ctx, "mean", f, lambda: f.obj.mean() if rng.rand() < 0.5 else f.obj.expectation(), "array.mean." + f.what + out)
        if f.what != "full":
            ns = [int(k) for k in rng.randint(0, 3, f.d)]
            n = ns[0] if f.what == "uni" else ns
            ev(ctx, f, x, lambda: f.obj.eval_derivative(n, x), "array.eval_derivative." + f.what + out, ns)
            if all(h["idx"] == list(range(len(h["idx"]))) for h in f.fams):
                ev(ctx, f, x, lambda: f.obj.derivative(n).eval(x), "array.derivative." + f.what + out, ns)
        if f.what == "sparse":
            k = int(rng.randint(f.d))
            ev(ctx, f, x, lambda: f.obj.eval_gradient(x)[:, k], "array.gradient" + out, [int(j == k) for j in range(f.d)])
        # combinations as a basis
        if np.size(f.shape) == 1:
            ev(ctx, f, x, lambda: f.obj.sub_functional_basis().eval(x), "array.sub_functional_basis" + out)
        ctx.observe("same", lambda: f.obj.random(4), lambda v: {"n": 4 * f.coef.shape[1], "a": vp.fixs(np.ravel(v[0]), 1000), "b": vp.fixs(np.ravel(f.obj.eval(np.reshape(v[1], (4, -1)) if not isinstance(v[1], list) else np.hstack([np.reshape(t, (4, 1)) for t in v[1]]))), 1000)},
                    sig="array.random." + f.what)
    if f.kinds <= set(ORTH):
        per(ctx, "var", f, lambda: deviation(rng, f.obj), "array.variance" + out)
        per(ctx, "norm2", f, lambda: f.obj.norm_expectation() ** 2, "array.norm_expectation" + out)
        ctx.observe("sum2", lambda: f.obj.norm() ** 2, lambda v: {"v": [vp.rat(v)]}, sig="array.norm" + out, **f.rec())
        per(ctx, "dot", f, lambda: f.obj.dot_product_expectation(g), "array.dot" + out, coef2=C2.tolist())
    if f.what in ("sparse", "full") and (f.kinds <= set(ORTH) or (f.kinds <= set(POLY) and rng.rand() < 0.5)):
        conditional(ctx, rng, f, out)
    projections(ctx, rng, f, out)


def conditional(ctx, rng, f, out):
    d = f.d
    dims = sorted(int(k) for k in rng.permutation(d)[: rng.randint(1, d + 1)])
    x = f.points(rng)
    arg = dims
    if rng.rand() < 0.3:
        arg = [bool(k in dims) for k in range(d)]
    elif len(dims) == 1 and rng.rand() < 0.5:
        arg = dims[0]
    if rng.rand() < 0.3 and len(dims) < d:      # with all the variables the function itself is returned
        arg = dims = [int(k) for k in rng.permutation(dims)]
    ctx.observe("cond", lambda: f.obj.conditional_expectation(arg).eval(x[:, dims]), lambda v: {"v": tab(v, f, len(x))}, dims=[k + 1 for k in dims], x=[vp.rats(r) for r in x], sig="array.conditional." + f.what + out, **f.rec())
    if f.kinds <= set(ORTH):
        per(ctx, "vcond", f, lambda: f.obj.variance_conditional_expectation([dims] if rng.rand() < 0.5 else np.array([dims])), "array.variance_conditional" + out, dims=[k + 1 for k in dims])
        several(ctx, rng, f, f.obj, "array.variance_conditional.logical" + out)


def several(ctx, rng, f, T, sig):
    """Several groups of variables given by logical rows; possibly none."""
    rows = rng.rand(int(rng.randint(1, 4)), f.d) < 0.5
    j = int(rng.randint(len(rows)))
    per(ctx, "vcond", f, lambda: np.asarray(T.variance_conditional_expectation(rows if rng.rand() < 0.5 else rows.tolist()))[j], sig, dims=[int(k) + 1 for k in np.nonzero(rows[j])[0]])


def projections(ctx, rng, f, out):
    """Interpolation and projection of a function of the space."""
    B, x = f.b.obj, f.points(rng)
    fun = lambda t: f.value(t) if f.coef.shape[1] > 1 or rng.rand() < 0.5 else f.value(t)[:, 0]  # noqa
    if np.size(f.shape) == 1 and f.kinds <= set(POLY) and (f.what != "sparse" or all(h["idx"] == list(range(len(h["idx"]))) for h in f.fams)):
        if f.what == "uni":
            pts = np.array(rng.permutation(7)[: len(f.terms)] - 3, dtype=float).reshape(-1, 1)
            if np.linalg.cond(B.eval(pts)) < 1e6:
                y = [fun, fun(pts)][rng.randint(2)]
                ev(ctx, f, x, lambda: B.interpolate(y, pts if rng.rand() < 0.5 else pts[:, 0]).eval(x), "interpolate.uni" + out)
        elif f.what == "full":
            grids = [np.array(rng.permutation(7)[: size(h)] - 3, dtype=float).reshape(-1, 1) for h in f.fams]
            pts = tensap.FullTensorGrid([g[:, 0] for g in grids]).array()
            if np.linalg.cond(B.eval(pts)) < 1e6:
                ev(ctx, f, x, lambda: B.interpolate(fun, pts).eval(x), "interpolate.full" + out)
            if f.coef.shape[1] == 1 and np.linalg.cond(B.eval(pts)) < 1e6:
                def tensorized():
                    h, o = (B if rng.rand() < 0.5 else f.b.bases).tensor_product_interpolation(lambda t: f.value(t)[:, 0], grids)
                    assert o["number_of_evaluations"] == len(f.terms)
                    return h.eval(x)
                ev(ctx, f, x, tensorized, "tensor_product_interpolation.full")
                shape = [len(g) for g in grids]

                def given_tensor():
                    # a tensor gives the values on the grid of interpolation points
                    q, sel = B.interpolation_points(grids)
                    T = tensap.FullTensor(np.reshape(f.value(q)[:, 0], shape, order="F"), f.d, shape)
                    return B.tensor_product_interpolation(T, sel)[0].eval(x)
                ev(ctx, f, x, given_tensor, "tensor_product_interpolation.tensor")
        elif f.coef.shape[1] == 1 and f.d > 1 and B.indices.is_downward_closed():
            # nested points: hierarchical interpolation
            grids = [np.array(rng.permutation(7)[: size(h)] - 3, dtype=float) for h in f.fams]

            def sparse():
                h, o = B.tensor_product_interpolation(lambda t: f.value(t)[:, 0], [g.reshape(-1, 1) for g in grids])
                assert o["number_of_evaluations"] == len(f.terms)
                return h.eval(x)
            if all(np.linalg.cond(b.eval(g)) < 1e4 for b, g in zip(f.b.bases.bases, grids)):
                ev(ctx, f, x, sparse, "tensor_product_interpolation.sparse")
        if np.linalg.matrix_rank(B.eval(f.points(rng, 200))) == len(f.terms):
            G = f.b.bases.measure.gauss_integration_rule(4).integration_rule() if f.what != "uni" else B.measure.gauss_integration_rule(4)
            how = rng.randint(3)
            fn = [lambda: B.projection(fun, G), lambda: B.least_squares_projection(fun, G), lambda: B.least_squares_projection(fun(G.points), G)][how]
            ev(ctx, f, x, lambda: fn().eval(x), "projection." + f.what + out)
            if f.kinds <= set(ORTH):
                ev(ctx, f, x, lambda: B.quasi_projection(fun, G).eval(x), "quasi_projection." + f.what + out)
            ctx.observe("gram", lambda: tensap.FunctionalBasis.gram_matrix(B, G), lambda v: {"v": [vp.rats(r) for r in v * np.outer(f.b.oscale, f.b.oscale)]}, sig="gram.quadrature", **f.b.rec())
            if f.what == "full" and f.coef.shape[1] == 1:
                def tproj():
                    u = tensap.UserDefinedFunction(lambda t: f.value(t)[:, 0], f.d)
                    u.evaluation_at_multiple_points = True
                    h, o = B.tensor_product_projection(u, f.b.bases.measure.gauss_integration_rule(4))
                    assert o["number_of_evaluations"] == 4 ** f.d
                    return h.eval(x)
                ev(ctx, f, x, tproj, "tensor_product_projection")
    if f.what == "sparse" and f.kinds <= set(POLY):
        # the same function on a larger index set
        al = np.array([np.unravel_index(k, [size(h) for h in f.fams], order="F") for k in range(int(np.prod([size(h) for h in f.fams])))])
        al = al[rng.permutation(len(al))]
        if rng.rand() < 0.5:
            big = tensap.SparseTensorProductFunctionalBasis(f.b.bases, tensap.MultiIndices(al))
            ev(ctx, f, x, lambda: f.obj.projection(big).eval(x), "array.projection.sparse" + out)
        else:
            full = tensap.FullTensorProductFunctionalBasis(f.b.bases)
            ev(ctx, f, x, lambda: f.obj.projection(full, tensap.MultiIndices.bounded_by([size(h) - 1 for h in f.fams])).eval(x), "array.projection.full" + out)


# -------------------------------------------------------- functional tensors
def rtensor(rng, kinds, fmts=("full", "canonical", "tree", "sparse", "diagonal"), d=None, full=False, root_rank=1, other=None):
    d = d or int(rng.randint(1, 4))
    fmt = fmts[rng.randint(len(fmts))]
    if fmt in ("tree", "diagonal") and d == 1:
        fmt = "full"
    B, D, S = zip(*[family(rng, kinds, full) for _ in range(d)])
    if fmt == "diagonal":
        B, D, S = [B[0]] * d, [D[0]] * d, [S[0]] * d
    card = [size(x) for x in D]
    if fmt == "tree":
        T = F.rtreetensor(rng, F.rtree(rng, d), card, root_rank=root_rank)
    elif fmt == "diagonal":
        T = F.rdiagonal(rng, card[0], d)
    else:
        T = F.random_obj(rng, fmt, shape=card)
    dense = np.asarray(F.dense(T))
    no = dense.size // int(np.prod(card))
    C = np.round(np.reshape(dense, (-1, no), order="F")).astype(int)
    terms = np.array([np.unravel_index(k, card, order="F") for k in range(int(np.prod(card)))])
    bases = tensap.FunctionalBases(list(B))
    if any(np.any(s != 1) for s in S):
        T = T.tensor_matrix_product([np.diag(s) for s in S])
    f = Fun(list(D), terms, C, tensap.FunctionalTensor(T, bases) if rng.rand() < 0.7 else tensap.FunctionalTensor(T, bases, list(range(d))))
    f.fmt, f.bases, f.S, f.T, f.card = fmt, bases, S, T, card
    return f


def products(ctx, rng, f, x, tag):
    d, T = f.d, f.obj
    if not (f.kinds <= set(POLY) and all(h["kind"] in ORTH for h in f.fams) and np.prod(f.card) <= 18):
        return
    x = np.clip(x, -1, 1)  # no extrapolation of the polynomials of high degree
    a = int(rng.randint(-2, 3))
    ctx.observe("lin", lambda: (T * a).eval(x), lambda v: {"v": tab(v, f, len(x))}, a=a, b=0, coef2=f.coef.tolist(), ns=[0] * d, x=[vp.rats(r) for r in x], sig="ft.scalar." + tag, **f.rec())
    g, D2 = f, T
    if rng.rand() < 0.7:
        if f.fmt == "full":
            t2 = tensap.FullTensor(rng.randint(-1, 2, f.card).astype(float), d, f.card)
        else:
            t2 = F.rtreetensor(rng, f.T.tree, f.card, act=np.array(f.T.is_active_node) if rng.rand() < 0.7 else None, root_rank=f.coef.shape[1], lo=-1, hi=1)
        C = np.round(np.reshape(np.asarray(F.dense(t2)), (-1, f.coef.shape[1]), order="F")).astype(int)
        g = Fun(f.fams, f.terms, C, None)
        D2 = tensap.FunctionalTensor(t2.tensor_matrix_product([np.diag(q) for q in f.S]), f.bases)
    ctx.observe("prod", lambda: (T * D2).eval(x), lambda v: {"v": tab(v, f, len(x))}, g=g.rec(), ns=[0] * d, x=[vp.rats(r) for r in x], sig="ft.product." + tag, **f.rec())


def multiplied(ctx, rng):
    f = rtensor(rng, ("legendre", "hermite"), fmts=("full", "tree", "tree"), d=int(rng.randint(2, 4)), root_rank=int(rng.choice([1, 2, 2, 3])))
    products(ctx, rng, f, f.points(rng), f.fmt + (".vec" if f.coef.shape[1] > 1 else ""))


def tensors(ctx, rng):
    f = rtensor(rng, ("legendre", "hermite", "canon", "rows", "delta"), root_rank=1 if rng.rand() < 0.6 else int(rng.randint(2, 4)))
    d, T = f.d, f.obj
    x = f.points(rng)
    tag = f.fmt + (".vec" if f.coef.shape[1] > 1 else "")
    ev(ctx, f, x, lambda: (T.eval if rng.rand() < 0.5 else T)(x if rng.rand() < 0.6 else [x[:, [k]] for k in range(d)]), "ft.eval." + tag)
    ev(ctx, f, x, lambda: tensap.FunctionalTensor(f.T, f.bases.eval(x)).eval(None), "ft.evaluated." + tag)
    if f.kinds <= set(POLY):
        ns = [int(k) for k in rng.randint(0, 3, d)]
        ev(ctx, f, x, lambda: T.eval_derivative(ns, x), "ft.eval_derivative." + tag, ns)
        if all(h["idx"] == list(range(len(h["idx"]))) for h in f.fams):
            ev(ctx, f, x, lambda: T.derivative(ns).eval(x), "ft.derivative." + tag, ns)
        if f.fmt != "diagonal":  # contractions along some modes are not offered by diagonal tensors
            per(ctx, "mean", f, lambda: T.mean() if rng.rand() < 0.5 else T.expectation(), "ft.mean." + tag)
    no = f.coef.shape[1]
    if f.kinds <= set(POLY):
        k = int(rng.randint(d))
        ev(ctx, f, x, lambda: np.asarray(T.eval_gradient(x))[:, k], "ft.gradient." + tag, [int(j == k) for j in range(d)])
    if f.kinds <= set(POLY) and f.fmt != "diagonal":
        dims = sorted(int(q) for q in rng.permutation(d)[: rng.randint(1, d + 1)])
        arg = dims if rng.rand() < 0.7 else [bool(q in dims) for q in range(d)]
        ctx.observe("cond", lambda: T.conditional_expectation(arg).eval(x[:, dims]), lambda v: {"v": tab(v, f, len(x))}, dims=[q + 1 for q in dims], x=[vp.rats(r) for r in x], sig="ft.conditional." + tag, **f.rec())
        T2 = f.T + f.T
        if no == 1:
            per(ctx, "var", f, lambda: deviation(rng, T), "ft.variance." + tag)
            per(ctx, "norm2", f, lambda: T.norm() ** 2, "ft.norm." + tag)
            per(ctx, "dot", f, lambda: T.dot_product_expectation(tensap.FunctionalTensor(T2, f.bases)), "ft.dot." + tag, coef2=(2 * f.coef).tolist())
            per(ctx, "vcond", f, lambda: T.variance_conditional_expectation([dims]), "ft.variance_conditional." + tag, dims=[q + 1 for q in dims])
            several(ctx, rng, f, T, "ft.variance_conditional.logical." + tag)
        else:  # scalar products of all the pairs of outputs
            ctx.observe("gram", lambda: T.dot_product_expectation(tensap.FunctionalTensor(T2, f.bases)) / 2,
                        lambda v: {"v": [vp.rats(r) for r in np.asarray(v) * np.outer(f.oscale, f.oscale)]}, sig="ft.dot." + tag, **f.rec())
        ctx.observe("same", lambda: T.random(3, nargout=2) if rng.rand() < 0.5 else T.random_dims(range(d), 3, nargout=2),
                    lambda v: {"n": 3 * no, "a": vp.fixs(np.ravel(v[0]), 1000), "b": vp.fixs(np.ravel(T.eval(v[1])), 1000)}, sig="ft.random." + tag)
    # grids and partial evaluations
    grid = [x[:, [k]] for k in range(d)]
    gx = tensap.FullTensorGrid([g[:, 0] for g in grid]).array()
    gd = lambda v: np.reshape(F.dense(v), (-1, no), order="F")  # noqa
    ev(ctx, f, gx, lambda: gd(T.eval_on_grid(grid)), "ft.eval_on_grid." + tag)
    if d > 1:
        dims = [int(q) for q in rng.permutation(d)[: rng.randint(1, d)]]
        rest = [q for q in range(d) if q not in dims]
        if rng.rand() < 0.6:
            dims = sorted(dims)
        if dims == sorted(dims):
            # partial evaluation on a grid, the rest on a grid as well
            def pgrid():
                g = T.eval_on_grid([grid[k] for k in dims], np.array(dims) if rng.rand() < 0.5 else dims)
                assert len(g.bases) == len(rest)
                return gd(g.eval_on_grid([grid[k] for k in rest]) if len(g.fdims) == g.tensor.order else g.tensor.tensor_matrix_product(g.bases.eval([grid[k] for k in rest]), g.fdims))
            ev(ctx, f, gx, pgrid, "ft.partial_grid." + tag)
        if f.fmt != "sparse":  # no partial diagonal evaluation
            one = x[:1].repeat(len(x), 0)
            mixed = x.copy()
            mixed[:, dims] = one[:, dims]
            ev(ctx, f, mixed, lambda: np.reshape(F.dense(T.eval(x[:1][:, dims], dims).eval(x[:, rest])), (-1, no)), "ft.partial_point." + tag)
            # several points: values indexed by (first points, second points)
            n2 = f.points(rng, 2)
            both = np.array([[n2[j, q] if q in dims else x[i, q] for q in range(d)] for i in range(len(x)) for j in range(2)])

            def partial():
                g = T.eval(n2[:, dims], dims)
                v = F.dense(g.tensor.tensor_matrix_product_eval_diag(g.bases.eval(x[:, rest]), g.fdims))
                axes = np.shape(v)
                return v.T.ravel() if axes == (2, 3) else np.ravel(v)
            if f.fmt != "tree":  # several points at once: not offered by tree tensors
                ev(ctx, f, both, partial, "ft.partial_points." + tag)
    if f.fmt in ("full", "tree"):
        products(ctx, rng, f, x, tag)
    ctx.observe("lin", lambda: (T + T).eval(x), lambda v: {"v": tab(v, f, len(x))}, a=2, b=0, coef2=f.coef.tolist(), ns=[0] * d, x=[vp.rats(r) for r in x], sig="ft.add." + tag, **f.rec())


def usernd(ctx, rng):
    """User-defined functions of several variables."""
    d = int(rng.randint(2, 4))
    fams = [{"kind": "canon", "idx": [0, 1, 2], "rows": [], "m": 0, "s": 1, "v": [], "w": []} for _ in range(d)]
    n = int(rng.randint(1, 4))
    terms = rng.randint(0, 3, (n, d))
    funs = [lambda x, t=t: np.prod(np.reshape(x, (-1, d)) ** t, 1) for t in terms]
    B = tensap.UserDefinedFunctionalBasis(funs, tensap.ProductMeasure.duplicate(tensap.UniformRandomVariable(-1, 1), d), *([d] if rng.rand() < 0.5 else []))
    f = Fun(fams, terms, np.eye(n, dtype=int), B)
    x = f.points(rng)
    ev(ctx, f, x, lambda: B.eval(x), "user.nd")
    C = rng.randint(-2, 3, (n, 2))
    ev(ctx, Fun(fams, terms, C, None), x, lambda: tensap.FunctionalBasisArray(C, B, 2).eval(x), "user.nd.array")
    # values on several groups of variables
    fam, D, S = family(rng, POLY)
    g = Fun(fams + [D], np.array([[*t, j] for j in range(size(D)) for t in terms]), np.eye(n * size(D), dtype=int), None, np.tile(S, (n, 1)).T.ravel())
    y = g.points(rng)
    FB = tensap.FunctionalBases([B, fam])
    ev(ctx, g, y, lambda: tensap.FullTensorProductFunctionalBasis(FB).eval(y) if rng.rand() < 0.5 else np.reshape([a * b for p, q in zip(*FB.eval(y)) for b in q for a in p], (len(y), -1)), "user.groups")


def run(ctx):
    for a, b in (("legendre", "rows"), ("delta", "hermite")):
        ctx.model("FuncSpec", ["Tower", "Total", "Additive", "Conds", "Slope"], constants=["CMAX = 1", 'FAM1 = "%s"' % a, 'FAM2 = "%s"' % b])
    rng = ctx.sub_rng("functions")
    rng2 = ctx.sub_rng("subspaces")
    np.random.seed(ctx.seed)
    for _ in range(ctx.n(120, 1500)):
        bases(ctx, rng)
        structure(ctx, rng)
        subspaces(ctx, rng2)
        arrays(ctx, rng)
        tensors(ctx, rng)
        usernd(ctx, rng)
        multiplied(ctx, rng)
