"""C19: random variables and measures are consistent descriptions of a law."""
import numpy as np
import scipy.stats
import tensap

import C20
import vp


def rr(n, d=1):
    return vp.rat(n / d)


def val(q):
    return q[0] / q[1]


def law(rng, kinds=("uniform", "normal", "discrete"), dyadic=False):
    """A random variable and its description."""
    kind = kinds[rng.randint(len(kinds))]
    if kind == "uniform":
        a, b = sorted(rng.choice(9, 2, replace=False) - 4)
        if rng.rand() < 0.2:
            a, b = -1, 1
        return {"kind": kind, "a": [int(a), 1], "b": [int(b), 1]}
    if kind == "normal":
        m, s = int(rng.randint(-3, 4)), int(rng.randint(1, 4))
        if rng.rand() < 0.2:
            m, s = 0, 1
        return {"kind": kind, "m": [m, 1], "s": [s, 1]}
    n = int(rng.randint(1, 6))
    x = rng.permutation(9)[:n] - 4
    if rng.rand() < 0.5:
        x = np.sort(x)
    w = rng.randint(1, 5, n)
    if rng.rand() < 0.2:
        w[:] = 1
    if dyadic or rng.rand() < 0.4:
        tot = [8, 16][rng.randint(2)]
        w = np.diff(np.concatenate(([0], np.sort(rng.choice(tot - 1, n - 1, replace=False) + 1), [tot])))
    return {"kind": kind, "x": [[int(v), 1] for v in x], "w": w.tolist()}


def make(L, rng):
    if L["kind"] == "uniform":
        return tensap.UniformRandomVariable(val(L["a"]), val(L["b"]))
    if L["kind"] == "normal":
        return tensap.NormalRandomVariable(val(L["m"]), val(L["s"]))
    x = np.array([val(q) for q in L["x"]])
    w = np.array(L["w"])
    if np.all(w == w[0]) and rng.rand() < 0.5:
        return tensap.DiscreteRandomVariable(x if rng.rand() < 0.5 else x.reshape(-1, 1))
    return tensap.DiscreteRandomVariable(x if rng.rand() < 0.5 else x.reshape(-1, 1), w * 1.0 if rng.rand() < 0.3 else w / w.sum())


def sup(v):
    v = np.ravel(v).astype(float)
    return [vp.rat(t) if np.isfinite(t) else [1 if t > 0 else -1, 0] for t in v]


def observables(rng, L, X):
    """Everything the law says about itself."""
    kind = L["kind"]
    arr = lambda v: [v, v.reshape(-1, 1), v.reshape(1, -1), v.reshape(2, -1)][rng.randint(4)]  # noqa
    o = {"mass": vp.to_int(X.mass()), "ndim": vp.to_int(X.ndim()), "mean": vp.rat(np.ravel(X.mean())[0]), "var": vp.rat(np.ravel(X.variance())[0]), "std2": vp.rat(np.ravel(X.std())[0] ** 2),
         "sup": sup(X.support()), "tsup": [], "ext": [], "x": [], "cdf": [], "p": [], "icdf": [], "z": [], "ncdf": [], "nicdf": [], "npdf": [], "pdf": []}
    if kind == "discrete" and rng.rand() < 0.5:
        o["var"] = vp.rat(np.ravel(X.var())[0])
    if kind == "normal":
        m, s = val(L["m"]), val(L["s"])
        z = rng.randint(-4, 5, 6)
        x = arr(m + s * z)
        o["z"] = z.tolist()
        o["ncdf"] = vp.fixs(X.cdf(x).reshape(-1))
        o["npdf"] = vp.fixs(X.pdf(x).reshape(-1) * s)
        o["nicdf"] = vp.rats(X.icdf(arr(scipy.stats.norm.cdf(z))).reshape(-1))
        return o
    o["tsup"] = sup(X.truncated_support())
    o["ext"] = sup([X.min(), X.max()])
    if kind == "uniform":
        a, b = val(L["a"]), val(L["b"])
        x = np.array([a + (b - a) * k / 4 for k in rng.randint(-2, 7, 6)])
        o["pdf"] = vp.rats(X.pdf(arr(x)).reshape(-1))
    else:
        v = np.array([val(q) for q in L["x"]])
        x = np.round(rng.choice(v, 6) + rng.choice([-1 / 64, 1 / 64, 0, 0, 1, -1], 6), 12)
        x = np.where(np.min(np.abs(x[:, None] - v[None]), 1) < 1e-6, x, np.round(x * 64) / 64)
        exact = [v[np.argmin(np.abs(v - t))] if np.min(np.abs(v - t)) < 1e-6 else t for t in x]
        # atoms are asked at the values the variable really takes (the reference up to rounding)
        xv = np.ravel(X.values).astype(float)
        x = np.array([xv[np.argmin(np.abs(xv - t))] if np.min(np.abs(xv - t)) < 1e-9 else t for t in exact])
    o["x"] = vp.rats(x)
    o["cdf"] = vp.rats(np.asarray(X.cdf(arr(x))).reshape(-1))
    p = rng.randint(1, 17, 6) / 16
    if rng.rand() < 0.3:
        p = rng.randint(1, 13, 6) / 12
    o["p"] = vp.rats(p)
    o["icdf"] = vp.rats(np.asarray(X.icdf(arr(p))).reshape(-1))
    return o


def moments(rng, X, L):
    """A history of requests of moments, some of which are stored."""
    out = []
    big = abs(float(np.ravel(X.mean())[0])) + 4 * float(np.ravel(X.std())[0])
    for _ in range(rng.randint(1, 4)):
        ind = [int(k) for k in rng.permutation(5)[: rng.randint(1, 4)]]
        arg = [ind, np.array(ind), ind[0]][rng.randint(3)]
        keep = rng.rand() < 0.5
        res = X.moment(arg, 2) if keep else X.moment(arg)
        if keep:
            res, X = res
        out.append({"ind": ind if not np.isscalar(arg) else ind[:1], "val": [vp.rat(v, tol=1e-12 * big ** ind[j]) for j, v in enumerate(np.ravel(res))]})
    return out


def walk(ctx, rng, c):
    """Operations drawn by TLC replayed on the real classes."""
    L0, hist, L = c["start"], c["hist"], c["law"]
    X0 = make(L0, rng)
    before = [np.array(v).tolist() for v in X0.get_parameters()]

    def fn():
        X = X0
        for o in hist:
            if o["op"] == "shift":
                X = X.shift(o["b"], o["s"])
            elif o["op"] == "std":
                X = X.get_standard_random_variable()
            elif o["op"] == "discretize":
                X = X.discretize(o["n"])
            elif o["op"] == "support":
                X = X.discretize_support(o["n"]) if rng.rand() < 0.6 else X.discretize_support(o["n"], X.support())
            else:
                X = X.discretize_support(np.array(o["x"], dtype=float))
        return X

    def out(X):
        dy = L["kind"] != "discrete" or (sum(L["w"]) & (sum(L["w"]) - 1)) == 0
        return {"obs": observables(rng, L, X), "moments": moments(rng, X, L), "dyadic": bool(dy), "kept": before == [np.array(v).tolist() for v in X0.get_parameters()]}

    ctx.observe("walk", fn, out, start=L0, hist=hist, sig="walk." + L["kind"] + "." + ("-".join(sorted({o["op"] for o in hist}))))


def vector(ctx, rng):
    d = int(rng.randint(1, 4))
    laws = [law(rng, ("uniform", "discrete")) for _ in range(d)]
    same = rng.rand() < 0.25
    if same:
        laws = [laws[0]] * d
    vec = rng.rand() < 0.6
    X = [make(L, rng) for L in laws]
    if vec:
        V = tensap.RandomVector(X[0], d) if same else tensap.RandomVector(X)
        if rng.rand() < 0.2:
            V = tensap.ProductMeasure(V).random_vector()
        if rng.rand() < 0.2:
            V = tensap.RandomVector(V)
    else:
        V = tensap.ProductMeasure.duplicate(X[0], d) if same else tensap.ProductMeasure(X if rng.rand() < 0.5 else tensap.RandomVector(X))
    how = ["all", "sub", "sub"][rng.randint(3)]
    ind = [int(k) for k in rng.permutation(d)[: rng.randint(1, d + 1)]]
    perm = len(ind) == d and rng.rand() < 0.7

    def fn():
        if how == "all":
            return V
        i = ind if rng.rand() < 0.5 else np.array(ind)
        if vec and perm:
            return V.transpose(i)
        if len(ind) == 1 and rng.rand() < 0.3:
            i = ind[0]
        return V.marginal(i)

    def out(W):
        want = [laws[k] for k in ind] if how == "sub" else laws
        e = len(want)
        comp = list(W.random_variables if vec else W.measures)
        n = int(rng.randint(1, 6))
        S = np.asarray(W.random(n))
        x = np.array([[rng.choice([val(q) for q in L["x"]]) + rng.choice([0, 0, 0.5]) if L["kind"] == "discrete" else val(L["a"]) + (val(L["b"]) - val(L["a"])) * rng.randint(-1, 6) / 4 for L in want] for _ in range(4)])
        o = {"size": len(comp), "vec": bool(vec), "mass": vp.to_int(W.mass()), "mean": [vp.rat(np.ravel(c.mean())[0]) for c in comp], "var": [], "std2": [],
             "sup": [sup(s) for s in W.support()], "tsup": [sup(s) for s in W.truncated_support()], "x": [vp.rats(r) for r in x], "cdf": [], "pdf": [],
             "n": n, "sample": [vp.rats(np.round(r, 4)) for r in S]}
        if vp.to_int(W.ndim()) != len(comp):
            o["size"] = -1
        if vec:
            X = [x, [x[:, k] for k in range(e)]][rng.randint(2)]
            if rng.rand() < 0.2:
                o["x"], X = o["x"][:1], x[0]
            o["mean"] = vp.rats(W.mean())
            o["var"], o["std2"] = vp.rats(W.variance()), vp.rats(np.asarray(W.std()) ** 2)
            o["cdf"] = vp.rats(W.cdf(X))
            if all(L["kind"] == "uniform" for L in want):
                o["pdf"] = vp.rats(W.pdf(X))
        return o

    ctx.observe("vector", fn, out, laws=laws, how=how, ind=[k + 1 for k in ind], sig="vector." + ("vec." if vec else "prod.") + how)


def transfer(ctx, rng):
    d = int(rng.randint(1, 4))
    normal = rng.rand() < 0.3
    kinds = ("normal",) if normal else ("uniform", "discrete")
    lx = [law(rng, kinds) for _ in range(d)]
    ly = [law(rng, kinds) for _ in range(d)]
    one = d > 1 and rng.rand() < 0.3
    if one:
        ly = [ly[0]] * d
    if not normal and rng.rand() < 0.2:
        # probabilities whose floating-point sum is above one
        while True:
            n = int(rng.randint(3, 6))
            w = rng.randint(1, 6, n)
            if np.sum(w / w.sum()) > 1:
                break
        lx[0] = {"kind": "discrete", "x": [[int(v), 1] for v in sorted(rng.permutation(8)[:n] - 4)], "w": [int(v) for v in w]}
    x = np.zeros((4, d))
    for k, L in enumerate(lx):
        if normal:
            x[:, k] = val(L["m"]) + val(L["s"]) * rng.randint(-3, 4, 4)
        elif L["kind"] == "uniform":
            x[:, k] = val(L["a"]) + (val(L["b"]) - val(L["a"])) * rng.randint(1, 17, 4) / 16
        else:
            x[:, k] = rng.choice([val(q) for q in L["x"]], 4)
            x[0, k] = max(val(q) for q in L["x"])
    if d == 1 and rng.rand() < 0.3:
        x = x[:1]
    X, Y = [make(L, rng) for L in lx], [make(L, rng) for L in ly]

    def fn():
        if d == 1 and len(x) == 1 and rng.rand() < 0.5:
            return np.reshape(X[0].transfer(Y[0], float(x[0, 0])), (1, 1))
        if d == 1 and rng.rand() < 0.6:
            return np.asarray(X[0].transfer(Y[0], x[:, 0] if rng.rand() < 0.5 else x)).reshape(-1, 1)
        arg = x if rng.rand() < 0.6 else [x[:, k] for k in range(d)]
        return tensap.RandomVector(X).transfer(Y[0] if one else tensap.RandomVector(Y), arg)

    ctx.observe("transfer", fn, lambda y: {"y": [vp.rats(r) for r in y]}, lx=lx, ly=ly, x=[vp.rats(r) for r in x], sig="transfer." + ("normal" if normal else "exact"))


def code(L):
    L = dict(L)
    if "w" in L:
        g = int(np.gcd.reduce(L["w"]))
        L["w"] = [int(v) // g for v in L["w"]]
    return [L["kind"]] + [str(L[k]) for k in sorted(L) if k != "kind"]


def equality(ctx, rng):
    """Equality of random variables, vectors and measures built separately."""
    k = rng.randint(4)
    alone = k == 0
    d = 1 if alone else int(rng.randint(1, 4))
    xs = [law(rng, dyadic=True) for _ in range(d)]
    ys = [dict(L) for L in xs]
    j = rng.randint(5)
    if j == 0:
        ys[rng.randint(d)] = law(rng, dyadic=True)
    elif j == 1:
        q = rng.randint(d)
        L = dict(ys[q])
        key = {"uniform": "b", "normal": "s", "discrete": "x"}[L["kind"]]
        if key == "x":
            L["x"] = L["x"][:-1] + [[9, 1]]
        else:
            L[key] = [L[key][0] + 1, 1]
        ys[q] = L
    elif j == 2 and not alone:
        ys = ys[:-1] if d > 1 and rng.rand() < 0.5 else ys + [law(rng, dyadic=True)]
    elif j == 3 and not alone:
        ys = [ys[q] for q in rng.permutation(d)]
    fixed = np.random.RandomState(0)
    A, B = [make(L, fixed) for L in xs], [make(L, fixed) for L in ys]
    if alone:
        A, B = A[0], B[0]
    elif k == 1:
        A, B = tensap.RandomVector(A), tensap.RandomVector(B)
    elif k == 2:
        A, B = tensap.ProductMeasure(A), tensap.ProductMeasure(B)
    else:
        x = rng.randint(-2, 3, (3, 2))
        y = x.copy()
        w = rng.randint(1, 4, 3)
        v = w.copy()
        if rng.rand() < 0.5:
            (y if rng.rand() < 0.5 else v)[0] += 1
        A, B = tensap.DiscreteMeasure(x, w), tensap.DiscreteMeasure(y, v)
        xs, ys = [{"x": x.tolist(), "w": w.tolist()}], [{"x": y.tolist(), "w": v.tolist()}]
        if rng.rand() < 0.4:
            a, b = sorted(rng.choice(5, 2, replace=False))
            c = int(rng.randint(b + 1)) if rng.rand() < 0.5 else a
            c = min(c, b - 1)
            A, B = tensap.LebesgueMeasure(int(a), int(b)), tensap.LebesgueMeasure(int(c), int(b))
            xs, ys = [int(a), int(b)], [int(c), int(b)]
    ctx.observe("eq", lambda: (A == B, A != B), lambda v: {"eq": bool(v[0]), "ne": bool(v[1])}, xs=[str(x) if not isinstance(x, dict) or "kind" not in x else "/".join(code(x)) for x in xs],
                ys=[str(x) if not isinstance(x, dict) or "kind" not in x else "/".join(code(x)) for x in ys], sig="equality." + ["variable", "vector", "product", "measure"][k])


def grid(ctx, rng):
    d = int(rng.randint(1, 4))
    laws = [law(rng, ("uniform", "discrete")) for _ in range(d)]
    n = [int(k) for k in rng.randint(1, 7, d)]
    X = [make(L, rng) for L in laws]
    if d == 1 and rng.rand() < 0.6:
        arg = n[0]
        if rng.rand() < 0.3:
            arg = 1 / (n[0] - 0.5)
            n = [n[0]] if arg < 1 else [2]
            arg = arg if arg < 1 else 2
        ctx.observe("grid", lambda: X[0].iso_probabilistic_grid(arg), lambda g: {"grids": [vp.rats(np.ravel(g))]}, laws=laws, n=n, sig="grid.variable")
        return
    arg = n
    k = rng.randint(3)
    if k == 0:
        n = [n[0]] * d
        arg = n[0]
    elif k == 1:
        m = int(rng.randint(2, 6))
        n = [m] * d
        arg = (m - 0.3) ** -d
    ctx.observe("grid", lambda: tensap.RandomVector(X).iso_probabilistic_grid(arg if not isinstance(arg, list) or rng.rand() < 0.5 else np.array(arg)),
                lambda g: {"grids": [vp.rats(np.ravel(t)) for t in g.grids]}, laws=laws, n=n, sig="grid.vector")


def lhs(ctx, rng):
    d = int(rng.randint(1, 4))
    laws = [law(rng, ("uniform", "normal")) for _ in range(d)]
    n = int(rng.randint(1, 8))
    X = [make(L, rng) for L in laws]
    alone = d == 1 and rng.rand() < 0.6

    def out(S):
        S = np.asarray(S).reshape(n, d) if alone or np.shape(S) == (n, d) else np.full((n, d), np.nan)
        u = np.zeros((n, d))
        for k, L in enumerate(laws):
            u[:, k] = (S[:, k] - val(L["a"])) / (val(L["b"]) - val(L["a"])) if L["kind"] == "uniform" else scipy.stats.norm.cdf((S[:, k] - val(L["m"])) / val(L["s"]))
        cell = np.where(np.isfinite(u), np.floor(u * n), -1).astype(int)
        return {"count": [[int(np.sum(cell[:, k] == j)) for j in range(n)] for k in range(d)]}

    ctx.observe("lhs", lambda: X[0].lhs_random(n) if alone else tensap.RandomVector(X).lhs_random(n), out, n=n, sig="lhs")


def sample(ctx, rng):
    k = rng.randint(5)
    n = 1500
    L = law(rng) if k < 4 else None
    if L is None:
        x, s = C20.empirical_points(rng)
        X = tensap.EmpiricalRandomVariable(x.astype(float))
        n = 60
        count = lambda v: [int(np.sum((x.mean() < v))), int(np.sum(v <= x.mean()))]  # noqa
        h = 1.75 * s
        p = np.mean(scipy.stats.norm.cdf((x.mean() - x) / h))
        prob, tot = [int(round(1000 * (1 - p))), int(round(1000 * p))], 1000
    else:
        X = make(L, rng)
        if L["kind"] == "uniform":
            a, b = val(L["a"]), val(L["b"])
            count = lambda v: [int(np.sum((v - a) / (b - a) * 4 // 1 == j)) for j in range(4)]  # noqa
            prob, tot = [1] * 4, 4
        elif L["kind"] == "normal":
            q = val(L["m"]) + val(L["s"]) * np.array([-np.inf, -0.6744897501960817, 0, 0.6744897501960817, np.inf])
            count = lambda v: [int(np.sum((v > q[j]) & (v <= q[j + 1]))) for j in range(4)]  # noqa
            prob, tot = [1] * 4, 4
        else:
            count = lambda v: [int(np.sum(v == val(t))) for t in L["x"]]  # noqa
            prob, tot = L["w"], sum(L["w"])
    ctx.observe("sample", lambda: X.random(n), lambda v: {"shape": list(np.shape(v)), "count": count(np.ravel(v))}, n=n, prob=prob, tot=tot, dev=int(np.ceil(np.sqrt(n) / 2)), sig="sample")


def multi(ctx, rng):
    d = int(rng.randint(1, 4))
    if rng.rand() < 0.5:
        sets = [[int(t) for t in np.sort(rng.permutation(7)[: rng.randint(1, 5)])] for _ in range(d)]
        arg = [list(s) if rng.rand() < 0.5 else np.array(s) for s in sets]
        if rng.rand() < 0.3:
            arg = tuple(arg)
    else:
        n = rng.randint(1, 5, d)
        sets = [list(range(k)) for k in n]
        arg = [n, n.tolist(), tuple(n.tolist())][rng.randint(3)]
    keep = [np.array(a).tolist() for a in arg]

    def out(V):
        p = [np.asarray(v.cdf(np.array(s, dtype=float))) for v, s in zip(V.random_variables, sets)]
        kept = all(not isinstance(a, tensap.RandomVariable) for a in arg)
        return {"size": vp.to_int(V.size), "values": [vp.ilist(v.values) for v in V.random_variables], "prob": [vp.rats(np.diff(np.concatenate(([0], q)))) for q in p],
                "kept": bool(kept and keep == [np.array(a).tolist() for a in arg])}

    ctx.observe("multi", lambda: tensap.random_multi_indices(arg), out, sets=sets, sig="multi_indices")


def standard(ctx, rng):
    L = law(rng, ("discrete",))
    if len(L["x"]) == 1:
        return
    ctx.observe("std", lambda: make(L, rng).get_standard_random_variable(), lambda Y: {"y2": vp.rats(np.ravel(Y.values) ** 2), "sign": [int(np.sign(np.round(t, 9))) for t in np.ravel(Y.values)],
                "prob": vp.rats(Y.probabilities)}, law=L, sig="standard.discrete")


def extras(ctx, rng):
    """Likelihoods, truncated supports at a level, kinds, boxes, standard vectors."""
    L = law(rng, ("uniform", "normal"))
    X = make(L, rng)
    n = int(rng.randint(1, 4))
    if L["kind"] == "uniform":
        a, b = val(L["a"]), val(L["b"])
        x = np.array([a + (b - a) * k / 4 for k in rng.randint(-1 if rng.rand() < 0.3 else 0, 6 if rng.rand() < 0.3 else 5, n)])
        ctx.observe("lik", lambda: X.likelihood(x), lambda v: {"lik": vp.rat(np.exp(v) if v > -30 else 0.0), "near": 0}, law=L, x=vp.rats(x), z=[], sig="likelihood.uniform")
    else:
        m, s = val(L["m"]), val(L["s"])
        z = rng.randint(-2, 3, n)
        ctx.observe("lik", lambda: X.likelihood(list(m + s * z) if rng.rand() < 0.5 else m + s * z), lambda v: {"lik": [0, 1], "near": vp.fix(np.exp(v) * s ** n)}, law=L, x=[], z=z.tolist(), sig="likelihood.normal")
        k = int(rng.randint(1, 4))
        ctx.observe("trunc", lambda: X.truncated_support(2 * scipy.stats.norm.cdf(k) - 1), lambda v: {"sup": vp.rats(np.ravel(v))}, law=L, k=k, sig="truncated_support.level")
    M = law(rng)
    Y = make(M, rng)
    ctx.observe("kind", lambda: (Y.is_discrete(), Y.number_of_parameters() if M["kind"] != "discrete" else 2, Y.get_parameters(), tensap.ProductMeasure([Y, X]).is_discrete(), tensap.LebesgueMeasure(0, 1).is_discrete(), tensap.DiscreteMeasure(np.array([0.0, 1.0])).is_discrete()),
                lambda v: {"disc": bool(v[0]), "npar": vp.to_int(v[1]), "len": int(sum(np.size(q) for q in v[2])) if M["kind"] != "discrete" else 2, "prod": bool(v[3]), "leb": bool(v[4]), "dm": bool(v[5])},
                law=M, sig="kind." + M["kind"])
    d = int(rng.randint(1, 4))
    B = np.sort(rng.randint(-3, 4, (2, d)), 0)
    P = rng.randint(-4, 5, (int(rng.randint(1, 6)), d))
    ctx.observe("box", lambda: tensap.is_in(B.ravel() if d == 1 and rng.rand() < 0.5 else B.astype(float), P if rng.rand() < 0.5 else P.astype(float)), lambda v: {"ok": [bool(t) for t in v]}, lo=B[0].tolist(), up=B[1].tolist(), pts=P.tolist(), sig="is_in")
    laws = [law(rng, ("uniform", "normal")) for _ in range(d)]
    z = rng.randint(-2, 3, (3, d))
    ctx.observe("stdvec", lambda: tensap.RandomVector([make(q, rng) for q in laws]).get_standard_random_vector(),
                lambda V: {"size": int(V.size), "mean": vp.rats(V.mean()), "cdf": vp.fixs(V.cdf(z.astype(float)))}, laws=laws, z=z.tolist(), sig="standard.vector")
    if all(q["kind"] == "uniform" for q in laws):
        t = z / 2
        ctx.observe("copula", lambda: tensap.RandomVector([make(q, rng) for q in laws], *([tensap.IndependentCopula()] if rng.rand() < 0.5 else [])),
                    lambda V: {"c": vp.rats(V.copula.cdf((z + 2) / 4)), "d": [int(k) for k in np.shape(V.copula.pdf((z + 2) / 4))], "one": bool(np.all(V.copula.pdf((z + 2) / 4) == 1))}, z=z.tolist(), sig="copula")


def polynomials(ctx, rng):
    d = int(rng.randint(1, 4))
    laws = [law(rng) for _ in range(d)]
    laws = [L for L in laws if L["kind"] != "discrete" or len(L["x"]) > 1]
    if not laws:
        return
    d = len(laws)
    x = rng.randint(-4, 5, (d, 4))
    x = [x[k] if L["kind"] != "discrete" else np.array([rng.choice([val(q) for q in L["x"]]) for _ in range(4)]) for k, L in enumerate(laws)]
    V = tensap.RandomVector([make(L, rng) for L in laws])
    arg = [[], [3], [list(rng.randint(1, 4, d))]][rng.randint(3)]
    ctx.observe("poly", lambda: V.orthonormal_polynomials(*arg), lambda P: {"p1": [vp.rats(np.ravel(p.polyval([1], t.astype(float))) ** 2) for p, t in zip(P, x)]}, laws=laws, x=[vp.rats(t) for t in x], sig="polynomials")


def kernel(ctx, rng):
    x, s = C20.empirical_points(rng)
    x = rng.permutation(x)
    h = 1.75 * s
    X = tensap.EmpiricalRandomVariable(x.astype(float))
    # Simpson points: steps of h / 2
    lo = int(x.mean()) + float(rng.randint(-3, 3)) * h
    t = lo + h / 4 * np.arange(13)
    b, sc = int(rng.randint(-3, 4)), int(rng.randint(1, 4))

    def fn():
        xs = t[::2]
        F = np.asarray(X.cdf(xs))
        o = {"pdf": vp.fixs(np.ravel(X.pdf(t)) * h), "kern": vp.fixs(np.mean([tensap.NormalRandomVariable(v, h).pdf(t) for v in x], 0) * h), "cdf": vp.fixs(F),
             "lo": vp.fix(X.cdf(x.min() - 9.0 * h)), "hi": vp.fix(X.cdf(x.max() + 9.0 * h)), "xs": vp.fixs(xs / h, 10 ** 4), "back": vp.fixs(np.ravel(X.icdf(F)) / h, 10 ** 4),
             "mean": vp.rat(X.mean()), "shift": vp.fixs(X.shift(b, sc).cdf(sc * xs + b))}
        Z = X.get_standard_random_variable()
        z = (xs - x.mean()) / x.std()
        o["std"] = vp.fixs(Z.cdf(z))
        o["toStd"] = vp.fixs(np.ravel(X.transfer(Z, xs)), 10 ** 4)
        o["stdx"] = vp.fixs(z, 10 ** 4)
        W = tensap.EmpiricalRandomVariable(np.array([0.0, 1.0, 3.0]))
        o["unif"] = vp.fixs(W.cdf(X.transfer(W, xs[:2])) if rng.rand() < 0.5 else X.transfer(tensap.UniformRandomVariable(0, 1), xs[:2]))
        return o

    ctx.observe("kernel", fn, lambda o: o, x=x.tolist(), stepn=1, stepd=2, sig="empirical")


def lebesgue(ctx, rng):
    a, b = sorted(int(v) for v in rng.choice(9, 2, replace=False) - 4)
    m, s = int(rng.randint(-3, 4)), int(rng.randint(1, 4))

    def out(M):
        S = np.asarray(M.random(7))
        return {"mass": vp.to_int(M.mass()), "ndim": vp.to_int(M.ndim()), "sup": vp.ilist(M.support()), "tsup": vp.ilist(M.truncated_support()),
                "inside": bool(S.shape == (7,) and np.all(S >= m + s * a) and np.all(S <= m + s * b) and np.ptp(S) > 0)}

    ctx.observe("lebesgue", lambda: tensap.LebesgueMeasure(a, b).shift(m, s), out, a=m + s * a, b=m + s * b, sig="lebesgue")


def measure(ctx, rng):
    d, n = int(rng.randint(1, 4)), int(rng.randint(1, 6))
    pts = np.unique(rng.randint(-3, 4, (n, d)), axis=0)
    pts = pts[rng.permutation(len(pts))]
    w = rng.randint(1, 5, len(pts))
    ones = rng.rand() < 0.3
    if ones:
        w[:] = 1
    x = pts[:, 0] if d == 1 and rng.rand() < 0.5 else pts
    N = 1200

    def out(M):
        S = np.asarray(M.random(N)).reshape(N, d)
        return {"mass": vp.to_int(M.mass()), "ndim": vp.to_int(M.ndim()), "lo": vp.ilist(M.support()[0]), "up": vp.ilist(M.truncated_support()[1]),
                "count": [int(np.sum(np.all(S == p, 1))) for p in pts], "int": vp.to_int(M.integration_rule().integrate(lambda t: np.sum(np.reshape(t, (-1, d)), 1)))}

    ctx.observe("measure", lambda: tensap.DiscreteMeasure(x) if ones and rng.rand() < 0.5 else tensap.DiscreteMeasure(x, w), out, x=pts.tolist(), w=w.tolist(), n=N, tot=int(w.sum()),
                dev=int(np.ceil(np.sqrt(N) / 2)), sig="measure.discrete")


def run(ctx):
    ctx.model("LawSpec", ["Galois", "InvCdf", "Unit", "VarPos"], properties=["Effects"], constants=["A = 1", "S = 2", "D = %d" % ctx.n(2, 3)])
    rng = ctx.sub_rng("walks")
    np.random.seed(ctx.seed)
    for depth in (1, 2, 4):
        for c in ctx.generate("LawSpec", ["A = 2", "S = 3", "D = %d" % depth], init="SimInit", next_="SimNext", simulate=ctx.n(250, 4000), depth=12):
            walk(ctx, rng, c)
    rng = ctx.sub_rng("laws")
    for _ in range(ctx.n(300, 5000)):
        L = law(rng)
        walk(ctx, rng, {"start": L, "hist": [], "law": L})
        vector(ctx, rng)
        transfer(ctx, rng)
        equality(ctx, rng)
        grid(ctx, rng)
        multi(ctx, rng)
        standard(ctx, rng)
        extras(ctx, rng)
        polynomials(ctx, rng)
    for _ in range(ctx.n(60, 1000)):
        lhs(ctx, rng)
        sample(ctx, rng)
        lebesgue(ctx, rng)
        measure(ctx, rng)
    for _ in range(ctx.n(12, 200)):
        kernel(ctx, rng)
