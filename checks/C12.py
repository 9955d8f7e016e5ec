"""C12: set algebra and lattice definitions of multi-index sets."""
import numpy as np
import tensap

import vp

MI = tensap.MultiIndices


def D(x):
    """Dump a MultiIndices object (or its array)."""
    a = x.array if isinstance(x, MI) else np.asarray(x)
    assert a.ndim == 2, "not a two-dimensional array of indices"
    return [[vp.to_int(v) for v in row] for row in a.tolist()]


def o(v):
    assert isinstance(v, MI), "not a MultiIndices"
    return {"out": D(v)}


def one_set(ctx, rng, a, full):
    """All the operations on one set given as a list of rows."""
    d = len(a[0])
    n = len(a)
    a = [a[k] for k in rng.permutation(n)]
    X = lambda: MI(np.array(a, dtype=int).reshape(n, d))  # noqa: E731
    rec = lambda op, fn, out=o, sig=None, **kw: ctx.observe(  # noqa: E731
        op, fn, out, sig=sig or op, x=a, y=kw.pop("y", []), **kw)
    rec("margin", lambda: X().get_margin())
    rec("reduced", lambda: X().get_reduced_margin())
    m = int(rng.randint(0, 2))
    rec("downclosed", lambda: X().is_downward_closed(m), lambda v: {"val": bool(v)}, m=m, sig="downclosed(%d)" % m)
    if m:
        rec("downclosed", lambda: X().is_downward_closed(), lambda v: {"val": bool(v)}, m=0)
    if is_dc(a):
        rec("maximal", lambda: X().get_maximal_indices())
    if not full:
        return
    u = [int(v) for v in rng.randint(-5, 6, n)]
    rec("envelope", lambda: X().envelope(np.array(u)), lambda v: {"val": vp.ilist(v)}, u=u)
    rec("envelope", lambda: X().envelope(list(u)), lambda v: {"val": vp.ilist(v)}, u=u, sig="envelope(list)")
    v = [int(w) for w in rng.randint(0, 3, d)]
    c = int(rng.randint(0, 3))
    rec("shift", lambda: X() + np.array(v), v=v)
    rec("shift", lambda: X() + c, v=[c] * d, sig="shift(int)")
    rec("shift", lambda: c + X(), v=[c] * d, sig="radd")
    rec("unshift", lambda: X() - np.array(v), v=v)
    rec("unshift", lambda: X() - c, v=[c] * d, sig="unshift(int)")
    rec("rsub", lambda: c - X(), v=[c] * d, sig="rsub")
    k = int(rng.randint(1, d + 1))
    dims = [int(w) for w in rng.permutation(d)[:k]]
    rec("keepdims", lambda: X().keep_dims(dims), v=[w + 1 for w in dims])
    if d > 1:
        dims2 = dims[: d - 1]
        rec("remdims", lambda: X().remove_dims(dims2), v=[w + 1 for w in dims2])
        rec("remdims", lambda: X().remove_dims(dims2[0]), v=[dims2[0] + 1], sig="remdims(int)")
    pos = [int(w) for w in rng.permutation(n)[: int(rng.randint(1, n + 1))]]
    rec("keep", lambda: X().keep_indices(pos), v=[w + 1 for w in pos])
    rec("keep", lambda: X().get_indices(pos), lambda r: {"out": D(r)}, v=[w + 1 for w in pos], sig="get_indices")
    rec("drop", lambda: X().remove_indices(pos), v=[w + 1 for w in pos])
    rec("card", lambda: X().cardinal(), lambda r: {"val": int(r)})
    rec("ndim", lambda: X().ndim(), lambda r: {"val": int(r)})
    cols = [int(w) for w in rng.permutation(d)]
    for desc in (False, True):
        mode = "descend" if desc else "ascend"
        rec("sort", lambda: X().sort(mode=mode), v=list(range(d, 0, -1)), desc=desc, sig="sort(%s)" % mode)
        rec("sort", lambda: X().sort(cols, mode), v=[w + 1 for w in cols], desc=desc, sig="sort(columns,%s)" % mode)
        p = int(rng.choice([0, 1, 2, 3]))
        w = [int(t) for t in rng.randint(1, 4, d)]
        pp = np.inf if p == 0 else p
        rec("sortnorm", lambda: X().sort_by_norm(pp, mode), p=p, w=[1] * d, desc=desc, sig="sort_by_norm(%s)" % mode)
        rec("sortnorm", lambda: X().sort_by_weighted_norm(pp, w, mode), p=p, w=w, desc=desc, sig="sort_by_weighted_norm(%s)" % mode)
    for p in (0, 1, 2, 3):
        pp = np.inf if p == 0 else p
        val = lambda r: {"val": vp.ints(np.asarray(r, dtype=float) ** (p or 1), tol=1e-9)}  # noqa: E731
        rec("norm", lambda: X().norm(pp), val, p=p, w=[1] * d, v=list(range(1, n + 1)))
        rec("norm", lambda: X().weighted_norm(pp, w), val, p=p, w=w, v=list(range(1, n + 1)), sig="weighted_norm")
        rec("norm", lambda: X().norm(pp, pos), val, p=p, w=[1] * d, v=[t + 1 for t in pos], sig="norm(k)")
        rec("norm", lambda: X().weighted_norm(pp, w, pos), val, p=p, w=w, v=[t + 1 for t in pos], sig="weighted_norm(k)")


def pair(ctx, rng, a, b, same_dim=True):
    d = max(len(r) for r in (a + b))
    mk = lambda s: MI(np.array(s, dtype=int).reshape(len(s), -1 if s else d))  # noqa: E731
    rec = lambda op, fn, out=o, sig=None, **kw: ctx.observe(op, fn, out, sig=sig or op, x=a, y=b, **kw)  # noqa: E731
    if same_dim:
        rec("union", lambda: mk(a).add_indices(mk(b)))
        rec("diff", lambda: mk(a).remove_indices(mk(b)))

        def inter(v):
            return {"out": D(v[0]), "i": vp.one(v[1]), "j": vp.one(v[2])}

        rec("inter", lambda: mk(a).intersect_indices(mk(b)), inter)
        if a and b and (len(a) == len(b) or len(b) == 1):
            t = "(broadcast)" if len(b) == 1 else ""
            rec("eq", lambda: mk(a) == mk(b), lambda v: {"val": [bool(w) for w in v]}, sig="eq" + t)
            rec("le", lambda: mk(a) <= mk(b), lambda v: {"val": [bool(w) for w in v]}, sig="le" + t)
    if a and b and len(a) * len(b) <= 60:
        rec("product", lambda: mk(a).product(mk(b)))


def is_dc(a):
    s = {tuple(r) for r in a}
    for r in s:
        for k in range(len(r)):
            if r[k] > 0 and tuple(x - (j == k) for j, x in enumerate(r)) not in s:
                return False
    return True


def random_set(rng, d, top, n):
    s = {tuple(int(v) for v in rng.randint(0, top + 1, d)) for _ in range(n)}
    if rng.rand() < 0.4:  # downward closed
        t = set()
        for r in s:
            t |= set(np.ndindex(*[x + 1 for x in r]))
        s = t
    return [list(map(int, r)) for r in sorted(s)][:60]


def replay(ctx, run):
    """A behaviour generated by TLC, on the real objects."""
    pool = [MI(np.array(run["init"], dtype=int))]
    hist = []

    def body():
        for op in run["ops"]:
            a, b, k, v = pool[op["a"] - 1], pool[op["b"] - 1], op["k"], op["v"]
            r = {
                "union": lambda: a.add_indices(b), "diff": lambda: a.remove_indices(b),
                "inter": lambda: a.intersect_indices(b)[0], "margin": lambda: a.get_margin(),
                "reduced": lambda: a.get_reduced_margin(), "addmargin": lambda: a.add_indices(a.get_margin()),
                "addreduced": lambda: a.add_indices(a.get_reduced_margin()),
                "maximal": lambda: a.get_maximal_indices(),
                "dropmax": lambda: a.remove_indices(a.get_maximal_indices()),
                "shift": lambda: a + np.array(v), "unshift": lambda: a - np.array(v),
                "keepdims": lambda: a.keep_dims([w - 1 for w in v]), "remdims": lambda: a.remove_dims([w - 1 for w in v]),
                "product": lambda: a.product(b), "sort": lambda: a.sort(),
            }[k]()
            # queries in between must not matter
            a == b if a.cardinal() == b.cardinal() or b.cardinal() == 1 else None
            if a.ndim() == b.ndim() and b.cardinal() == 1:
                a <= b
            pool.append(r)
            hist.append(D(r))
        return True

    ctx.observe("run", body, lambda v: {"out": hist, "final": [D(p) for p in pool]}, sig="behaviour",
                x=run["init"], y=[], ops=run["ops"])


def run(ctx):
    rng = ctx.sub_rng("sets")
    inst = [(1, 5), (2, 3), (3, 2)]
    for d, nn in inst:
        for s in ctx.generate("MultiIndexGen", ["D = %d" % d, "NN = %d" % nn, "L = 0"], init="InitSets",
                              next_="Stay", invariants=["EmitSet", "Laws"], key="%d" % d):
            one_set(ctx, rng, s, full=rng.rand() < ctx.n(0.12, 1.0))
    rng = ctx.sub_rng("random")
    for _ in range(ctx.n(60, 1500)):
        d = int(rng.randint(1, 5))
        one_set(ctx, rng, random_set(rng, d, int(rng.randint(1, 5)), int(rng.randint(1, 9))), True)
    for _ in range(ctx.n(400, 8000)):
        d = int(rng.randint(1, 4))
        top = int(rng.randint(1, 4))
        a = random_set(rng, d, top, int(rng.randint(1, 7)))
        b = random_set(rng, d, top, int(rng.randint(1, 7)))
        if rng.rand() < 0.2:
            b = [a[int(rng.randint(len(a)))]]
        if rng.rand() < 0.2:
            b = [a[k] for k in rng.permutation(len(a))]
        rng.shuffle(a)
        pair(ctx, rng, a, b)
        if rng.rand() < 0.1:
            pair(ctx, rng, a, [])
            pair(ctx, rng, [], a)
        c = random_set(rng, int(rng.randint(1, 3)), top, int(rng.randint(1, 4)))
        pair(ctx, rng, a, c, same_dim=False)
    for d, nn in ((2, 3), (3, 2)):
        runs = ctx.generate("MultiIndexGen", ["D = %d" % d, "NN = %d" % nn, "L = %d" % ctx.n(6, 9)], init="InitRuns",
                              next_="NextRuns", invariants=["EmitRun"], simulate=ctx.n(60, 600), depth=ctx.n(7, 10))
        keep = rng.permutation(len(runs))[: ctx.n(1500, 20000)]
        for k in keep:
            replay(ctx, runs[k])
