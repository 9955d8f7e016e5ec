"""C17: polynomial families are orthonormal and self-consistent."""
import numpy as np
import tensap

import C20
import vp

T0 = {"legendre": 1, "lebesgue": 1, "hermite": 4}
BASE = {"legendre": tensap.LegendrePolynomials, "lebesgue": tensap.LegendrePolynomialsLebesgue, "hermite": tensap.HermitePolynomials}


def family(rng):
    fam = ["legendre", "lebesgue", "hermite"][rng.randint(3)]
    m, s = (0, 1) if rng.rand() < 0.4 else (int(rng.randint(-2, 3)), int(rng.randint(1, 4)))
    if m == 0 and s == 1 and rng.rand() < 0.7:
        p = BASE[fam]()
    elif rng.rand() < 0.5:
        p = tensap.ShiftedOrthonormalPolynomials(BASE[fam](), m, s)
    else:
        p = {"legendre": lambda: tensap.UniformRandomVariable(m - s, m + s), "lebesgue": lambda: tensap.LebesgueMeasure(m - s, m + s),
             "hermite": lambda: tensap.NormalRandomVariable(m, s)}[fam]().orthonormal_polynomials()
    return fam, m, s, p


def shape(rng, x):
    """The same points as an array of another shape."""
    k = rng.randint(4)
    x = np.array(x, dtype=float)
    return [x, x.reshape(-1, 1), x.reshape(1, -1), x[:, None, None]][k]


def call(rng, p, degs, x, n=0, how=None):
    """Values of the (derivatives of the) polynomials of degrees 0..k at x."""
    d = [degs, list(degs), np.array(degs)][rng.randint(3)]
    if isinstance(d, range):
        d = list(d)
    X = shape(rng, x)
    if n == 0:
        return p.polyval(d, X)
    if n == 1 and rng.rand() < 0.6:
        return p.d_polyval(d, X)
    return p.dn_polyval(n, d, X)


def subset(rng, p, kmax, x, n=0):
    """Values obtained through requests of subsets of the degrees, in any order."""
    if rng.rand() < 0.5:
        return call(rng, p, range(kmax + 1), x, n)
    out = np.zeros((len(x), kmax + 1))
    perm = rng.permutation(kmax + 1)
    cut = rng.randint(kmax + 2)
    for part in (perm[:cut], perm[cut:]):
        if len(part):
            out[:, part] = call(rng, p, part, x, n)
    return out


def classic(ctx, rng):
    fam, m, s, p = family(rng)
    kmax = int(rng.randint(0, 6))
    ts = [int(rng.randint(-5, 6)) for _ in range(4)]
    x = [m + s * t / 2 for t in ts]
    t0 = T0[fam]

    def out(_):
        top = np.ravel(p.polyval(list(range(kmax + 1)), np.array([m + s * t0], dtype=float)))
        r = {"sign": [1 if v > 0 else 0 for v in top], "vals": [vp.rats(v * top) for v in subset(rng, p, kmax, x)],
             "ders": [{"n": n, "vals": [vp.rats(v * top) for v in subset(rng, p, kmax, x, n)]} for n in (1, 2, 3)], "coef": [], "norms2": [], "rec": []}
        if not isinstance(p, tensap.ShiftedOrthonormalPolynomials):
            c = p.poly_coeff(np.arange(kmax + 1))
            r["coef"] = [vp.rats(v * w) for v, w in zip(c, top)]
            a, n = p.recurrence_monic(kmax)
            r["norms2"] = vp.rats(n ** 2, 100000)
            r["rec"] = [[vp.rat(v) for v in col] for col in a.T]
        return r

    ctx.observe("classic", lambda: p, out, fam=fam, m=m, s=s, kmax=kmax, ts=ts, t0=t0, sig="values." + fam)
    bound = lambda v: [vp.rat(t) if np.isfinite(t) else [1 if t > 0 else -1, 0] for t in np.ravel(v).astype(float)]  # noqa
    ind = [int(k) for k in rng.permutation(4)[: rng.randint(1, 4)]]
    n = int(rng.randint(1, 6))

    def extra():
        c, k = p.one()
        o = {"one": vp.rats(np.ravel(c * p.polyval([k], np.array(x)))), "dom": bound(p.domain()), "orth": bool(p.is_orthonormal()), "shape": [n, len(ind)], "a": [], "b": [], "x": [],
             "tdom": bound(p.truncated_domain()) if fam != "hermite" else bound(p.domain())}
        if fam != "lebesgue":
            f, y = p.random(ind if rng.rand() < 0.5 else np.array(ind), n) if n > 1 or rng.rand() < 0.5 else p.random(ind)
            o["shape"], o["a"], o["x"] = [int(v) for v in np.shape(f)], vp.fixs(np.ravel(f), 1000), vp.fixs(np.ravel(y), 10000)
            o["b"] = vp.fixs(np.ravel(np.stack([np.ravel(p.polyval([k], np.ravel(y))) for k in ind], axis=1)), 1000)
        return o
    ctx.observe("extra", extra, lambda o: o, fam=fam, m=m, s=s, n=n, k=len(ind), sig="extra." + fam)
    deg = int(rng.randint(1, 9))
    lo, hi = (m - s, m + s) if fam != "hermite" else (-1000, 1000)

    def rout(v):
        scale = 1 + float(np.max(np.abs(p.polyval([deg], np.array([m + s * t0], dtype=float)))))
        return {"roots": vp.fixs(np.ravel(v), 10 ** 5), "vals": [vp.fix(w / scale, 10 ** 5) for w in np.ravel(p.polyval([deg], v))], "lo": lo * 10 ** 5, "hi": hi * 10 ** 5}

    ctx.observe("roots", lambda: p.roots(deg), rout, deg=deg, sig="roots." + fam)


def moments(ctx, rng):
    fam = ["legendre", "lebesgue", "hermite"][rng.randint(3)]
    base = rng.rand() < 0.7
    p = BASE[fam]()
    cols = int(rng.randint(1, 4))
    top = 4 if cols < 3 else 2
    ind = [[int(rng.randint(0, top + 1)) for _ in range(cols)] for _ in range(rng.randint(1, 5))]
    t0 = T0[fam]
    law = {"legendre": {"kind": "uniform", "a": -1, "b": 1}, "lebesgue": {"kind": "lebesgue", "a": -1, "b": 1}, "hermite": {"kind": "normal", "m": 0, "s": 1}}[fam]
    mu = None
    if not base:
        mu, law = C20.measure(rng, ("uniform", "lebesgue", "normal", "discrete"))[:2]
        if law["kind"] in ("uniform", "lebesgue") and max(abs(law["a"]), abs(law["b"])) > 2 or law["kind"] == "normal" and law["s"] > 1:
            return
        ind = [[min(k, 2) for k in q] for q in ind]
    elif rng.rand() < 0.3:
        mu = p.measure
    mean = cols == 1 and rng.rand() < 0.5
    val = lambda q: float(np.prod([p.polyval([k], np.array([t0], dtype=float))[0, 0] for k in q]))  # noqa
    if mean:
        fn = lambda: p.mean([q[0] for q in ind] if rng.rand() < 0.5 else np.array(ind)[:, 0], *([mu] if mu is not None else []))  # noqa
    else:
        arg = np.array(ind)
        fn = lambda: p.moment(arg, mu) if mu is not None else p.moment(arg)  # noqa
    ctx.observe("moment", fn, lambda v: {"val": [vp.rat(a * val(q)) for a, q in zip(np.ravel(v), ind)]}, fam=fam, law=law, ind=ind, t0=t0, mean=bool(mean),
                sig="%s.%s%s" % ("mean" if mean else "moment", fam, "" if base else "." + law["kind"]))
    # a shifted family: E[prod p_k] under the shifted law equals the base one
    m, s = int(rng.randint(-2, 3)), int(rng.randint(1, 4))
    q = tensap.ShiftedOrthonormalPolynomials(BASE[fam](), m, s)
    own = {"legendre": {"kind": "uniform", "a": -1, "b": 1}, "lebesgue": {"kind": "lebesgue", "a": -1, "b": 1}, "hermite": {"kind": "normal", "m": 0, "s": 1}}[fam]
    arg = np.array(ind)
    nm = {"legendre": lambda: tensap.UniformRandomVariable(m - s, m + s), "lebesgue": lambda: tensap.LebesgueMeasure(m - s, m + s), "hermite": lambda: tensap.NormalRandomVariable(m, s)}[fam]()
    given = rng.rand() < 0.5
    # normalise to the base measure: p_shifted = p_base / sqrt(r), law = r * base law
    r = s if fam == "lebesgue" else 1
    vq = lambda k: float(np.prod([q.polyval([j], np.array([m + s * t0], dtype=float))[0, 0] for j in k]))  # noqa
    if mean:
        ctx.observe("moment", lambda: q.mean([k[0] for k in ind], nm) if given else q.mean(np.array(ind)[:, 0]), lambda v: {"val": [vp.rat(a * vq(k) * r) for a, k in zip(np.ravel(v), ind)]},
                    fam=fam, law=own, ind=ind, t0=t0, mean=True, sig="mean.shifted." + fam)
    else:
        ctx.observe("moment", lambda: q.moment(arg, nm) if given else q.moment(arg), lambda v: {"val": [vp.rat(a * vq(k) * r ** (cols - 1)) for a, k in zip(np.ravel(v), ind)]},
                    fam=fam, law=own, ind=ind, t0=t0, mean=False, sig="moment.shifted." + fam)


def table(ctx, rng):
    k = rng.randint(3)
    s = m = None
    if k == 0:
        _, mu, _ = C20.measure(rng, ("discrete",))
        X = tensap.DiscreteRandomVariable(np.array(mu["x"], dtype=float), np.array(mu["w"]) / sum(mu["w"]))
        m, s = 0, 1
    elif k == 1:
        _, mu, _ = C20.measure(rng, ("discrete",))
        mu["normed"] = False
        X = tensap.DiscreteMeasure(np.array(mu["x"], dtype=float), np.array(mu["w"]))
        m, s = 0, 1
    else:
        x, s = C20.empirical_points(rng)
        m = int(x.mean())
        X = tensap.EmpiricalRandomVariable(x.astype(float))
        mu = {"kind": "kernel", "x": (x - m).tolist(), "hn": 7 * s, "hd": 4, "normed": True, "w": []}
    kmax = min(4, len(mu["x"]) - 1) if k < 2 else 2
    kmax = int(rng.randint(0, kmax + 1))
    pts = rng.randint(-3, 4, 4).tolist()

    def fn():
        if k < 2:
            return X.orthonormal_polynomials() if rng.rand() < 0.5 else tensap.DiscretePolynomials(X)
        j = rng.randint(3)
        if j == 0:
            return X.orthonormal_polynomials()
        if j == 1:
            return X.orthonormal_polynomials(4)
        p = tensap.EmpiricalPolynomials(X if rng.rand() < 0.5 else X.sample, 4)
        return tensap.ShiftedOrthonormalPolynomials(p, m, s)

    def out(p):
        shifted = isinstance(p, tensap.ShiftedOrthonormalPolynomials)
        b = p.polynomials if shifted else p
        c = b.poly_coeff(list(range(kmax + 1)) if rng.rand() < 0.5 else np.arange(kmax + 1))
        return {"coef": [vp.fixs(r, 10 ** 4) for r in c], "vals": [vp.fixs(r, 1000) for r in subset(rng, p, kmax, mu["x"])] if k < 2 else [],
                "at": [vp.fixs(r, 1000) for r in subset(rng, p, kmax, pts)], "ders": [{"n": n, "vals": [vp.fixs(r, 1000) for r in subset(rng, p, kmax, pts, n)]} for n in (1, 2)]}

    ctx.observe("table", fn, out, mu=mu, x=mu["x"] if k < 2 else [], m=m, s=s, pts=pts, sig="table." + ["discrete", "measure", "kernel"][k])


def canonical(ctx, rng):
    p = tensap.CanonicalPolynomials()
    ind = [int(k) for k in rng.permutation(6)[: rng.randint(1, 5)]]
    pts = rng.randint(-3, 4, 5).tolist()
    n = int(rng.randint(0, 4))
    ctx.observe("canon", lambda: call(rng, p, np.array(ind), pts, n), lambda v: {"vals": [vp.ilist(r) for r in v]}, ind=ind, n=n, pts=pts, sig="canonical")
    if n:
        f = (lambda i: p.d_poly_coef(i)) if n == 1 and rng.rand() < 0.5 else (lambda i: p.dn_poly_coeff(n, i))
        ctx.observe("canon", lambda: f(np.array(ind) if rng.rand() < 0.5 else ind), lambda c: {"vals": [[vp.to_int(sum(a * x ** j for j, a in enumerate(r))) for r in c] for x in pts]},
                    ind=ind, n=n, pts=pts, sig="canonical.coef")


def run(ctx):
    ctx.model("PolySpec", ["Orthogonal", "Norm", "Monic", "Values", "Derivs"], constants=["KMAX = %d" % ctx.n(4, 5)])
    rng = ctx.sub_rng("families")
    for _ in range(ctx.n(700, 9000)):
        classic(ctx, rng)
        moments(ctx, rng)
        table(ctx, rng)
        canonical(ctx, rng)
