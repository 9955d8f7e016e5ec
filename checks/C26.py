"""C26: function wrappers are faithful whatever was evaluated before."""
import numpy as np
import tensap

import formats as F
import vp


def carr(v):
    v = np.asarray(v)
    return {"shape": [int(n) for n in v.shape], "data": vp.ilist(v)}


def coefs(rng, d, m):
    return [{"c0": int(rng.randint(-3, 4)), "c": rng.randint(-3, 4, d).tolist(), "q": int(rng.randint(-2, 3))} for _ in range(m)]


def formula(c, d):
    return "(%d" % c["c0"] + "".join("+(%d)*x%d" % (a, k) for k, a in enumerate(c["c"])) + "+(%d)*x0*x%d)" % (c["q"], d - 1)


def ev(c, x):
    return c["c0"] + x @ np.array(c["c"], dtype=float) + c["q"] * x[:, 0] * x[:, -1]


OUTS = [[1], [1], [2], [3], [1, 2], [2, 2], [2, 3], [2, 1, 2]]


class Holder:
    def __init__(self, f):
        self.f = f

    def eval(self, x):
        return self.f(x)


def wrapped(rng, d, out, cf, log):
    """A UserDefinedFunction over the polynomials cf, logging its evaluations."""
    multi = bool(rng.rand() < 0.5)
    m = len(cf)
    kind = rng.randint(4)
    if kind < 2:
        text = formula(cf[0], d) if m == 1 else "[" + ",".join(formula(c, d) for c in cf) + "]"
        f = tensap.UserDefinedFunction(text, d, None if out == [1] and rng.rand() < 0.5 else (out[0] if len(out) == 1 and rng.rand() < 0.5 else out))
        inner = f.fun

        def fun(x):
            log.extend(np.array(x).tolist())
            return inner(x)
        f.fun = fun
    else:
        def fun(x):
            log.extend(np.array(x).tolist())
            y = np.stack([ev(c, x) for c in cf], axis=1)
            if not multi:
                return y[0, 0] if m == 1 else y[0].reshape(out)
            return y[:, 0] if m == 1 and out == [1] else y.reshape([-1] + out)
        f = tensap.UserDefinedFunction(Holder(fun) if kind == 3 else fun, d, np.array(out) if out != [1] else 1)
    f.evaluation_at_multiple_points = multi
    return f


def many(ctx, rng):
    """Formulas in many variables: x1 and x1k are different variables."""
    d = int(rng.choice([11, 12, 13, 21, 23]))
    m = int(rng.randint(1, 3))
    cf = [{"c0": int(rng.randint(-3, 4)), "c": (rng.randint(-3, 4, d) * (rng.rand(d) < 0.4)).tolist(), "q": int(rng.randint(-2, 3))} for _ in range(m)]
    text = [("(%d" % c["c0"] + "".join("+(%d)*x%d" % (c["c"][k], k) for k in rng.permutation(d) if c["c"][k]) + "+(%d)*x0*x%d)" % (c["q"], d - 1)) for c in cf]
    f = tensap.UserDefinedFunction(text[0] if m == 1 else "[" + ",".join(text) + "]", d, m)
    f.evaluation_at_multiple_points = bool(rng.rand() < 0.5)
    p = points(rng, d, int(rng.randint(1, 4)))
    ctx.observe("partial", lambda: f.eval(p) if rng.rand() < 0.5 else f(p), lambda v: {"val": carr(v)}, d=d, na=[], xna=[], pts=ints(p), cf=cf, oshape=[m], exact=False, sig="formula.many")


def points(rng, d, n, dup=0.3):
    p = rng.randint(-3, 4, (n, d))
    for i in range(1, n):
        if rng.rand() < dup:
            p[i] = p[rng.randint(i)]
    return p.astype(float)


def ints(p):
    return [[int(v) for v in r] for r in np.asarray(p)]


def history(ctx, rng, case):
    d = int(rng.randint(1, 4))
    out = OUTS[rng.randint(len(OUTS))]
    cf = coefs(rng, d, int(np.prod(out)))
    log = []
    f = wrapped(rng, d, out, cf, log)
    f.store = bool(rng.rand() < 0.7)
    npts = max([max(s["req"] + [0]) for s in case])
    table = []
    while len(table) < npts:
        p = rng.randint(-3, 4, d).tolist()
        if p not in table:
            table.append(p)
    told = f.store
    for s in case:
        if rng.rand() < 0.15:      # an evaluation that bypasses the store changes nothing
            f.eval(np.array(table[:1], dtype=float))
        del log[:]
        pts = [table[k - 1] for k in s["req"]]
        x = np.array(pts, dtype=float).reshape(len(pts), d)
        k = rng.randint(4) if told else rng.randint(3, 5)
        if d == 1 and rng.rand() < 0.3:
            x = x[:, 0]
        if k in (0, 1):
            fn = lambda: f(x)  # noqa
        elif k == 2:
            fn = lambda: pair(f(x, return_f=True), f)  # noqa
        elif k == 3:
            fn = lambda: pair(f.store_eval(x), f)  # noqa
        else:                      # not storing yet
            fn = lambda: f(x)  # noqa
        exact = k != 3
        sig = "%s.%s" % (["call", "call", "call(return_f)", "store_eval", "call(no store)"][k], "vector" if out != [1] else "scalar")
        seen = [table[q - 1] for q in s["seen"]] if told else []
        v = ctx.observe("ask", fn, lambda v: {"val": carr(v), "log": ints(log), "ptsafter": ints(x.reshape(len(pts), d))},
                        cf=cf, oshape=out, pts=pts, seen=seen, exact=exact, sig=sig)
        if k == 4:
            continue               # the model's history starts at the first stored request
        if not told:
            told = True
            if s["seen"]:
                break
        if v is None:
            break
        if rng.rand() < 0.6:       # the caller reuses its arrays
            x[...] = rng.randint(-3, 4, x.shape)
        if rng.rand() < 0.6 and isinstance(v, np.ndarray) and v.size and v.flags.writeable:
            v[...] = 99


def pair(v, f):
    assert len(v) == 2 and v[1] is f
    return v[0]


def partial(ctx, rng):
    d = int(rng.randint(2, 5))
    out = OUTS[rng.randint(len(OUTS))]
    cf = coefs(rng, d, int(np.prod(out)))
    f = wrapped(rng, d, out, cf, [])
    f.store = bool(rng.rand() < 0.3)
    if rng.rand() < 0.5:
        f.measure = tensap.ProductMeasure([tensap.UniformRandomVariable(0, k + 1) for k in range(d)])
    na = rng.permutation(d)[: rng.randint(1, d)].tolist()
    xna = rng.randint(-3, 4, len(na))
    arg = xna.astype(float) if rng.rand() < 0.5 else xna.astype(float)[None, :]
    g = ctx.call(lambda: f.partial_evaluation(na if rng.rand() < 0.5 else np.array(na), arg))[1]
    for _ in range(2):
        pts = points(rng, d - len(na), int(rng.randint(1, 5)))
        how = rng.randint(2)
        ctx.observe("partial", lambda: (g or f.partial_evaluation(na, arg)).eval(pts) if how else (g or f.partial_evaluation(na, arg))(pts),
                    lambda v: {"val": carr(v)}, d=d, na=[k + 1 for k in na], xna=xna.tolist(), pts=ints(pts), cf=cf, oshape=out, exact=not how, sig="partial_evaluation")


def grids(ctx, rng):
    d = int(rng.randint(1, 4))
    out = OUTS[rng.randint(len(OUTS))]
    cf = coefs(rng, d, int(np.prod(out)))
    f = wrapped(rng, d, out, cf, [])
    gs = [rng.permutation(7)[: rng.randint(1, 4)] - 3 for _ in range(d)]
    ctx.observe("grid", lambda: f.eval_on_tensor_grid(tensap.FullTensorGrid([g.astype(float) for g in gs])), lambda v: {"val": vp.arr(F.dense(v))},
                grids=[g.tolist() for g in gs], cf=cf, oshape=out, sig="eval_on_tensor_grid(full)")
    cf = cf[:1]
    f = wrapped(rng, d, [1], cf, [])
    sh = [len(g) for g in gs]
    allx = np.array(np.unravel_index(np.arange(int(np.prod(sh))), sh)).T
    ix = allx[rng.permutation(len(allx))[: rng.randint(1, len(allx) + 1)]]

    def out_(v):
        return {"inds": [[int(n) + 1 for n in r] for r in v.indices.array], "data": vp.ilist(v.data)}

    ctx.observe("sparse", lambda: f.eval_on_tensor_grid(tensap.SparseTensorGrid([g.astype(float) for g in gs], tensap.MultiIndices(ix))), out_,
                grids=[g.tolist() for g in gs], cf=cf, want=[[int(n) + 1 for n in r] for r in ix], sig="eval_on_tensor_grid(sparse)")


def compositional(ctx, rng):
    d = int(rng.randint(1, 6))
    t = F.rtree(rng, d)
    dt = F.dump_tree(t)
    cf = [{"c0": 0, "c": [0], "q": 0}] * t.nb_nodes
    fun = np.empty(t.nb_nodes, dtype=object)
    same = rng.rand() < 0.2
    for a in range(t.nb_nodes):
        k = len(dt["ch"][a])
        if k:
            c = {"c0": int(rng.randint(-1, 2)), "c": rng.randint(-2, 3, k).tolist(), "q": int(rng.randint(-1, 2) if rng.rand() < 0.4 else 0)}
            if same:
                c = {"c0": 1, "c": [2] * k, "q": 0}
            cf[a] = c
            fun[a] = (lambda *z: 1 + 2 * sum(z)) if same else (lambda *z, c=c: c["c0"] + sum(w * v for w, v in zip(c["c"], z)) + c["q"] * z[0] * z[-1])
    arg = fun[t.internal_nodes[0] - 1] if same and t.internal_nodes.size else (fun if rng.rand() < 0.5 else list(fun))
    pts = points(rng, d, int(rng.randint(1, 6)))
    ctx.observe("comp", lambda: tensap.CompositionalModelFunction(t, arg, None), lambda f: {"val": carr(f(pts) if d > 1 or rng.rand() < 0.5 else f.eval(pts))},
                tree=dt, cf=cf, pts=ints(pts), sig="compositional")
    f = tensap.CompositionalModelFunction(t, arg, None)
    f.store = True
    p1 = pts[: len(pts) // 2]
    if len(p1):
        ctx.call(lambda: f(p1))
    ctx.observe("comp", lambda: f(pts), lambda v: {"val": carr(v)}, tree=dt, cf=cf, pts=ints(pts), sig="compositional(stored)")


class Draw(tensap.ProbabilityMeasure):
    """A measure with prescribed draws."""

    def __init__(self, x):
        self.x = x

    def random(self, n=1):
        return self.x[:n]

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return "Draw"

    def truncated_support(self):
        return None

    def support(self):
        return None

    def marginal(self, ind):
        return self

    def mean(self):
        return 0

    def ndim(self):
        return self.x.shape[1]

    def pdf(self, x):
        return 1

    def random_sequential(self, n):
        return self.x[:n]

    def mass(self):
        return 1


def errors(ctx, rng):
    d = int(rng.randint(1, 4))
    out = OUTS[rng.randint(len(OUTS))]
    m = int(np.prod(out))
    cf, cg = coefs(rng, d, m), coefs(rng, d, m)
    if rng.rand() < 0.3:
        cg = [dict(c, c0=c["c0"] + int(rng.randint(2))) for c in cf]
    f, g = wrapped(rng, d, out, cf, []), wrapped(rng, d, out, cg, [])
    pts = rng.randint(-2, 3, (int(rng.randint(2, 6)), d)).astype(float)
    gv = np.stack([ev(c, pts) for c in cg], axis=1)
    if not np.any(gv):
        return
    k = rng.randint(4)
    mu = Draw(pts)
    if k == 0:
        fn = lambda: f.test_error(g, pts)  # noqa
    elif k == 1:
        fn = lambda: f.test_error(gv.reshape([-1] + out) if rng.rand() < 0.5 or out != [1] else gv[:, 0], pts)  # noqa
    elif k == 2:
        fn = lambda: f.test_error(g, len(pts), mu)  # noqa
    else:
        (f if rng.rand() < 0.5 else g).measure = mu
        fn = lambda: f.test_error(g, len(pts))  # noqa
    ctx.observe("error", fn, lambda v: {"l2": vp.fix(v[0] ** 2, 1000), "linf": vp.fix(v[1] ** 2, 1000)}, cf=cf, oshape=out, pts=ints(pts), g=vp.ilist(gv), sig="test_error")
    own = rng.rand() < 0.5
    h = wrapped(rng, d, out, cf, [])
    if own or rng.rand() < 0.5:
        h.measure = Draw(pts[::-1]) if not own else mu
    ctx.observe("random", lambda: h.random(len(pts)) if own else h.random(len(pts), mu), lambda v: {"val": carr(v[0]), "pts": ints(v[1])},
                cf=cf, oshape=out, exact=False, sig="random")


def run(ctx):
    ctx.model("StoreSpec", ["Faithful", "Once", "Stored"], constants=["P = %d" % ctx.n(3, 4), "Q = %d" % ctx.n(3, 3), "L = 4"], extra_cfg="VIEW View")
    rng = ctx.sub_rng("histories")
    cases = ctx.generate("StoreSpec", ["P = 3", "Q = 2", "L = 3"])
    cases = [c for k, c in enumerate(cases) if k % ctx.n(3, 1) == ctx.seed % ctx.n(3, 1)]
    cases += ctx.generate("StoreSpec", ["P = 6", "Q = 5", "L = 7"], next_="SimNext", simulate=ctx.n(250, 4000), depth=9)
    for c in cases:
        history(ctx, rng, c)
    rng = ctx.sub_rng("others")
    for _ in range(ctx.n(350, 6000)):
        partial(ctx, rng)
        grids(ctx, rng)
        compositional(ctx, rng)
        errors(ctx, rng)
        many(ctx, rng)
