"""C20: integration rules are exact where they promise to be."""
import numpy as np
import tensap

import vp


def empirical_points(rng):
    while True:
        x = rng.randint(-2, 3, 8)
        m, v = x.mean(), x.var()
        s = int(round(np.sqrt(v)))
        if m == int(m) and s * s == v and s > 0:
            return x, s


def measure(rng, kinds=("uniform", "lebesgue", "normal", "discrete", "kernel")):
    """A measure, its description and the largest number of points to use."""
    kind = kinds[rng.randint(len(kinds))]
    if kind in ("uniform", "lebesgue"):
        a, b = [(-1, 1), (0, 1), sorted(rng.choice(7, 2, replace=False) - 3)][rng.randint(3)]
        a, b = int(a), int(b)
        mu = {"kind": kind, "a": a, "b": b}
        big = max(abs(a), abs(b))
        obj = (tensap.UniformRandomVariable if kind == "uniform" else tensap.LebesgueMeasure)(a, b)
        return obj, mu, {0: 10, 1: 10, 2: 6, 3: 5}[big]
    if kind == "normal":
        m, s = int(rng.randint(-2, 3)), int(rng.randint(1, 3))
        if rng.rand() < 0.3:
            m, s = 0, 1
        return tensap.NormalRandomVariable(m, s), {"kind": kind, "m": m, "s": s}, 5 if s == 1 and abs(m) < 2 else 3
    if kind == "discrete":
        x = rng.permutation(7)[: rng.randint(1, 6)] - 3
        w = rng.randint(1, 5, x.size)
        if rng.rand() < 0.3:
            w[:] = 1
            return tensap.DiscreteRandomVariable(x.astype(float)), {"kind": kind, "x": x.tolist(), "w": w.tolist(), "normed": True}, min(4, x.size)
        return tensap.DiscreteRandomVariable(x.astype(float), w if rng.rand() < 0.3 else w / w.sum()), {"kind": kind, "x": x.tolist(), "w": w.tolist(), "normed": True}, min(4, x.size)
    x, s = empirical_points(rng)
    return tensap.EmpiricalRandomVariable(x.astype(float)), {"kind": kind, "x": x.tolist(), "hn": 7 * s, "hd": 4}, 2


def den(mu, k):
    if mu["kind"] == "lebesgue":
        return k + 1
    if mu["kind"] == "uniform":
        return (k + 1) * (mu["b"] - mu["a"])
    if mu["kind"] == "normal":
        return 1
    if mu["kind"] == "discrete":
        return sum(mu["w"]) if mu["normed"] else 1
    return 8 * 16 ** (k // 2)


def bounds(mu):
    if mu["kind"] in ("uniform", "lebesgue"):
        return mu["a"], mu["b"]
    if mu["kind"] == "discrete":
        return min(mu["x"]), max(mu["x"])
    return -np.inf, np.inf


def dump(mu, n, ndim=True):
    def out(g):
        lo, hi = bounds(mu)
        p = np.ravel(g.points)
        kmax = 2 * n - 1
        return {"mom": [vp.to_int(g.integrate(lambda x: np.ravel(x) ** k), den(mu, k)) for k in range(kmax + 1)], "den": [den(mu, k) for k in range(kmax + 1)],
                "signs": [1 if w > 0 else 0 for w in g.weights], "inside": bool(np.all(p >= lo - 1e-9) and np.all(p <= hi + 1e-9)),
                "npts": int(p.size), "nw": int(np.size(g.weights)), "ndim": int(g.ndim()) if ndim else 1}
    return out


def product_out(mus, pw, given):
    def out(g):
        ax = True
        if given is not None:
            ax = all(np.allclose(np.ravel(p), np.ravel(q)) for p, q in zip(g.points.grids, given))
        moms, dens = [], []
        for e in pw:
            d = int(np.prod([den(m, k) for m, k in zip(mus, e)]))
            moms.append(vp.to_int(g.integrate(lambda x: np.prod([x[:, j] ** k for j, k in enumerate(e)], axis=0)), d))
            dens.append(d)
        r = g.integration_rule() if hasattr(g, "integration_rule") else g
        return {"mom": moms, "den": dens, "npts": int(r.points.shape[0]), "nw": int(np.size(r.weights)), "ndim": int(g.ndim()), "axes": bool(ax)}
    return out


def rules(ctx, rng):
    X, mu, top = measure(rng)
    n = int(rng.randint(1, top + 1))
    k = rng.randint(3)
    fn = [lambda: X.gauss_integration_rule(n), lambda: tensap.IntegrationRule.gauss(X, n), lambda: X.gauss_integration_rule(np.int64(n))][k]
    ctx.observe("rule", fn, dump(mu, n), mu=mu, n=n, sig="gauss." + mu["kind"])
    if mu["kind"] == "discrete":
        w = np.array(mu["w"])
        ctx.observe("rule", X.integration_rule, dump(mu, len(mu["x"])), mu=mu, n=len(mu["x"]), sig="integration_rule.discrete")
        D = tensap.DiscreteMeasure(np.array(mu["x"], dtype=float), w if rng.rand() < 0.5 else w.astype(float))
        ctx.observe("rule", D.integration_rule, dump(dict(mu, normed=False), len(mu["x"])), mu=dict(mu, normed=False), n=len(mu["x"]), sig="integration_rule.measure")
    elif mu["kind"] == "kernel":
        m = int(rng.randint(1, 3))

        def fn2():
            g = X.integration_rule(m)
            return g

        def out(g):
            r = dump(mu, m)(g)
            r["npts"] //= 8
            r["nw"] //= 8
            return r
        ctx.observe("rule", fn2, out, mu=mu, n=m, sig="integration_rule.kernel")


def products(ctx, rng):
    d = int(rng.randint(1, 4))
    ms = [measure(rng, ("uniform", "lebesgue", "normal", "discrete")) for _ in range(d)]
    ns = [int(rng.randint(1, min(3, m[2]) + 1)) for m in ms]
    iso = rng.rand() < 0.3
    if iso:
        ns = [min(ns)] * d
    mus = [m[1] for m in ms]
    pw = [[int(rng.randint(0, 2 * n)) if rng.rand() < 0.7 else 0 for n in ns] for _ in range(4)]
    P = tensap.ProductMeasure([m[0] for m in ms])
    g1 = [m[0].gauss_integration_rule(n) for m, n in zip(ms, ns)]
    arg = ns[0] if iso else (ns if rng.rand() < 0.5 else np.array(ns))
    ctx.observe("product", lambda: P.gauss_integration_rule(arg) if rng.rand() < 0.7 else tensap.IntegrationRule.gauss(P, arg), product_out(mus, pw, [g.points for g in g1]),
                mus=mus, n=ns, pw=pw, sig="product.gauss")
    pts = [g.points for g in g1]
    ws = [g.weights if rng.rand() < 0.5 else g.weights.reshape(-1, 1) for g in g1]
    if rng.rand() < 0.5:
        pts = tensap.FullTensorGrid([np.reshape(p, (-1, 1)) for p in pts])
    ctx.observe("product", lambda: tensap.FullTensorProductIntegrationRule(pts, ws), product_out(mus, pw, [g.points for g in g1]), mus=mus, n=ns, pw=pw, sig="product.rule")
    # a rule repeated in every direction
    m, n = ms[0], ns[0]
    e = [[int(rng.randint(0, 2 * n)) if rng.rand() < 0.7 else 0 for _ in range(d)] for _ in range(4)]
    one = m[0].integration_rule if m[1]["kind"] == "discrete" and rng.rand() < 0.5 else (lambda: m[0].gauss_integration_rule(n))
    pts1 = one().points
    ctx.observe("product", lambda: one().tensorize(d), product_out([m[1]] * d, e, [pts1] * d), mus=[m[1]] * d, n=[int(np.size(pts1))] * d, pw=e, sig="tensorize")


def composite(ctx, rng):
    def one():
        knots = rng.permutation(7)[: rng.randint(2, 5)] - 3
        p = len(knots) - 1
        if rng.rand() < 0.5:
            knots = np.sort(knots)
        if rng.rand() < 0.4:
            n = int(rng.randint(1, 4))
            ns = [n] * p
        else:
            ns = rng.randint(1, 4, p).tolist()
            n = ns if rng.rand() < 0.5 else np.array(ns)
        return knots, n, ns

    knots, n, ns = one()
    srt = sorted(int(k) for k in knots)
    cases = [(0, k) for k in range(2 * min(ns))] + [(j + 1, k) for j in range(len(ns)) for k in range(2 * ns[j])]

    def out(g):
        mom = []
        for j, k in cases:
            lo, hi = (srt[0], srt[-1]) if j == 0 else (srt[j - 1], srt[j])
            mom.append(vp.to_int(g.integrate(lambda x: np.ravel(x) ** k * ((np.ravel(x) > lo) & (np.ravel(x) < hi))), k + 1))
        return {"mom": mom, "counts": [int(np.sum((g.points > srt[j]) & (g.points < srt[j + 1]))) for j in range(len(ns))], "signs": [1 if w > 0 else 0 for w in g.weights]}

    ctx.observe("composite", lambda: tensap.IntegrationRule.gauss_legendre_composite(knots.astype(float) if rng.rand() < 0.5 else knots.tolist(), n), out,
                knots=srt, n=ns, piece=[c[0] for c in cases], pw=[c[1] for c in cases], den=[c[1] + 1 for c in cases], sig="composite")
    d = int(rng.randint(1, 4))
    ks = [rng.permutation(7)[: rng.randint(2, 4)] - 3 for _ in range(d)]
    m = int(rng.randint(1, 3))
    mus = [{"kind": "lebesgue", "a": int(k.min()), "b": int(k.max())} for k in ks]
    pw = [[int(rng.randint(0, 2 * m)) for _ in range(d)] for _ in range(4)]
    arg = [k.astype(float) for k in ks]
    ctx.observe("product", lambda: tensap.FullTensorProductIntegrationRule.gauss_legendre_composite(arg if rng.rand() < 0.5 else tuple(arg), m), product_out(mus, pw, None),
                mus=mus, n=[(k.size - 1) * m for k in ks], pw=pw, sig="composite.product")


def run(ctx):
    ctx.model("IntegSpec", ["Additive", "Mass", "Halves", "Shifted"], constants=["A = %d" % ctx.n(2, 3), "K = 5"])
    rng = ctx.sub_rng("rules")
    for _ in range(ctx.n(700, 10000)):
        rules(ctx, rng)
    for _ in range(ctx.n(500, 8000)):
        products(ctx, rng)
        composite(ctx, rng)
