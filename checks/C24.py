"""C24: tensor approximation from samples recovers low-rank tensors.

Cases (trees, active leaves, sizes, rank bounds, sampling options) are
generated from PcaSpec and run against an oracle that logs its queries; the
counts, the grids, the ranks and the result are judged by TLC."""
from copy import deepcopy

import numpy as np
import tensap

import formats as F
import vp

NOBOUND = 1000


def L(v):
    return [int(t) for t in np.ravel(np.asarray(v))]


class Oracle:
    def __init__(self, x, u=1.0):
        self.x, self.u, self.calls = x, u, []

    def __call__(self, ind):
        ind = np.atleast_2d(np.asarray(ind))
        self.calls.append(np.array(ind))
        q = np.clip(np.rint(ind).astype(int), 0, np.array(self.x.shape) - 1)
        return self.u * np.array([self.x[tuple(i)] for i in q], dtype=float)

    def report(self):
        q = np.concatenate(self.calls) if self.calls else np.zeros((0, self.x.ndim))
        return dict(calls=len(q), integral=bool(np.all(q == np.rint(q))), minq=[vp.to_int(v) + 1 for v in q.min(0)], maxq=[vp.to_int(v) + 1 for v in q.max(0)])


def wanted(rng, T, sz, ina, top):
    """Ranks of a tensor that can be attained."""
    n = len(T["parent"])
    r = np.array([0 if a + 1 in ina else rng.randint(1, top + 1) for a in range(n)])
    size = lambda a: sz[T["dims"].index(a + 1)]
    ch = lambda a: [b for b in range(n) if T["parent"][b] == a + 1]
    R = lambda b: size(b) if b + 1 in ina else r[b]
    for _ in range(n):
        for a in range(n):
            if a + 1 in ina:
                continue
            if T["parent"][a] == 0:
                r[a] = 1
            c = ch(a)
            r[a] = min(r[a], np.prod([R(b) for b in c]) if c else size(a))
            for b in c:
                if b + 1 not in ina:
                    r[b] = min(r[b], r[a] * np.prod([R(e) for e in c if e != b]))
    return [int(v) for v in r]


def matrix(x, dims, samples, log, rows, count):
    """Entries seen at a node: rows x columns, integers; empty when unknown."""
    d = x.ndim
    rest = [k for k in range(d) if k not in dims]
    if samples is not None:
        s = np.asarray(samples, dtype=int)
        a, b = s[:, :len(dims)], s[:, len(dims):]
    else:
        want = {tuple(v) for v in rows}
        hits = []
        for c in log:
            c = np.asarray(c, dtype=int)
            if len(c) == len(rows) and {tuple(v) for v in c[:, dims]} == want and len(np.unique(c[:, rest], axis=0)) == 1:
                hits.append(c[0, rest])
        if len(hits) != count:
            return {"shape": [0, 0], "data": []}
        a, b = np.array(rows), np.array(hits)
    a, b = np.unique(a, axis=0), np.unique(b, axis=0)
    A = np.zeros((len(a), len(b)))
    for i, u in enumerate(a):
        for j, v in enumerate(b):
            ix = np.zeros(d, dtype=int)
            ix[dims], ix[rest] = u, v
            A[i, j] = x[tuple(ix)]
    return {"shape": list(A.shape), "data": vp.ints(A)}


def product(grids):
    out = [[]]
    for g in grids:
        out = [list(u) + list(v) for v in g for u in out]
    return out


def options(rng, s, o, n, pos):
    """Set the tolerance and rank options; pos: nodes in the order of the array."""
    top = [o["top"][p - 1] for p in pos]
    how = rng.randint(3)
    if o["mode"] == "rank":
        s.tol = np.inf
        s.max_rank = np.array(top) if how else [int(v) for v in top]
        if how == 2:
            s.tol, s.max_rank = np.array(top, dtype=float), np.inf
    else:
        s.tol = 1e-9 if how else np.full(len(pos), 1e-9)
        if how == 2:
            s.tol = [1e-9] if rng.rand() < 0.5 else np.array([1e-9])
        s.max_rank = np.inf if max(top) >= NOBOUND else np.array(top)
    s.pca_sampling_factor = o["fac"]
    s.pca_adaptive_sampling = o["adapt"]
    s.display = False


def inside(o, rng):
    """Bounds as they apply to the run (and the text of the call)."""
    T = o["T"]
    n = len(T["parent"])
    root = T["parent"].index(0) + 1
    want = wanted(rng, T, o["sz"], o["ina"], 3)
    k = rng.randint(3)
    if o["mode"] == "tol" and k:
        o["top"] = [NOBOUND] * n
    elif k == 1:
        o["top"] = list(want)
    o["top"] = [0 if a + 1 in o["ina"] else (o["top"][a] if a + 1 != root else max(1, o["top"][a])) for a in range(n)]
    return want, root


def common_fields(f, out, o, tree, want, x, log):
    n = len(o["T"]["parent"])
    ranks = L(f.ranks)
    A, ev, grids = [], [], []
    for a in range(n):
        g = out["alpha_grids"][a]
        grids.append([] if g is None else [[int(v) + 1 for v in row] for row in np.asarray(g)])
        ev.append(vp.to_int(out["outputs"][a]["number_of_evaluations"]) if out["outputs"][a] is not None else 0)
    for a in range(n):
        if out["outputs"][a] is None:
            A.append({"shape": [0, 0], "data": []})
            continue
        dims = L(tree.dims[a])
        ch = [b for b in range(n) if o["T"]["parent"][b] == a + 1]
        rows = product([[[v - 1 for v in row] for row in grids[b]] for b in ch]) if ch else [[v] for v in range(o["sz"][dims[0]])]
        seen = None if o["adapt"] and o["mode"] == "tol" else out["outputs"][a]["samples"]
        A.append(matrix(x, dims, seen, log, rows, ev[a] // max(1, len(rows))))
    return dict(T=F.dump_tree(f.tree), sz=L(f.shape), inactive=[a + 1 for a in range(n) if not f.is_active_node[a]], ranks=ranks, ev=ev, grids=grids, A=A,
                evals=vp.to_int(out["number_of_evaluations"]))


def unchanged(s):
    keep = deepcopy(s.__dict__)

    def frame():
        return bool(set(keep) == set(s.__dict__) and all(type(keep[k]) == type(s.__dict__[k]) and all(np.array_equal(a, b) for a, b in zip(np.atleast_1d(keep[k]), np.atleast_1d(s.__dict__[k]))) if k != "grid" else all(np.array_equal(a, b) for a, b in zip(keep[k], s.__dict__[k]))
                                                        for k in keep if isinstance(keep[k], (int, float, str, list, np.ndarray))))
    return frame


def run_tree(ctx, o, rng):
    kind = ["tree", "tree", "tree", "tucker", "tt"][rng.randint(5)]
    if kind == "tucker":
        d = len(o["sz"])
        tree = tensap.DimensionTree.trivial(d)
        o = dict(o, ina=[])
    elif kind == "tt":
        d = len(o["sz"])
        tree = tensap.DimensionTree.linear(d)
        o = dict(o, ina=sorted(int(v) for v in tree.dim2ind[1:]))
    else:
        relabel = F.rtree(rng, len(o["sz"])) if rng.rand() < 0.3 else None
        tree = relabel if relabel is not None else F.tree_from_parent(o["T"]["parent"], o["T"]["dims"])
        if relabel is not None:
            o = dict(o, ina=[int(v) for v in tree.dim2ind if rng.rand() < 0.4] if tree.nb_nodes > 1 else [])
    o = dict(o, T=F.dump_tree(tree))
    n = tree.nb_nodes
    o["top"] = [int(o["top"][rng.randint(len(o["top"]))]) or 1 for _ in range(n)]
    want, root = inside(o, rng)
    active = np.array([a + 1 not in o["ina"] for a in range(n)])
    xt = F.rtreetensor(rng, tree, o["sz"], act=active, ranks=want)
    x = F.dense(xt)
    if kind == "tt":
        act = np.nonzero(active)[0] + 1
        pos = [int(v) for v in act[act != root][::-1]]
    elif kind == "tucker":
        pos = L(tree.dim2ind)
    else:
        pos = list(range(1, n + 1))
    s = tensap.TensorPrincipalComponentAnalysis()
    options(rng, s, o, n, pos)
    if o["mode"] == "rank":                       # the array only has the nodes of the format
        pass
    eim = bool(rng.rand() < 0.9)
    s.subsampling = "eim" if eim else "random"
    loose = o["mode"] == "tol" and rng.rand() < 0.15
    if loose:
        s.tol = 0.2
    # tolerances are relative: an exact scaling changes nothing
    u = 2.0 ** int(rng.randint(-60, 61)) if rng.rand() < 0.25 else 1.0
    fun = Oracle(x, u)
    frame = unchanged(s)
    shape = [o["sz"], np.array(o["sz"])][rng.randint(2)]

    def go():
        if kind == "tucker":
            return s.tucker_approximation(fun, shape)
        if kind == "tt":
            return s.tt_approximation(fun, shape)
        return s.tree_based_approximation(fun, shape, tree) if not o["ina"] and rng.rand() < 0.5 else s.tree_based_approximation(fun, shape, tree, active)

    if not eim:                                   # random rows may be dependent: nothing is promised then
        if "LinAlgError" in ctx.call(go)[1]:
            return
        fun.calls.clear()

    sc = 10 ** 7 / max(1.0, float(np.abs(x).max()))

    def out(res):
        f, out = res
        full = np.asarray(f.full().data) / u
        g = np.asarray(out["alpha_grids"][root - 1], dtype=int)
        ix = np.zeros_like(g)
        ix[:, L(tree.dims[root - 1])] = g
        d = common_fields(f, out, o, tree, want, x, fun.calls)
        return dict(d, **fun.report(), ongrid=[vp.fix(full[tuple(i)], sc) for i in ix], target=[vp.fix(x[tuple(i)], sc) for i in ix],
                    f=vp.fixs(full, sc), x=vp.fixs(x, sc), frame=frame())

    ctx.observe("tree", go, out, sig="%s:%s%s" % (kind, o["mode"], ":adapt" if o["adapt"] else ""), repro=dict(kind=kind, o=o, want=want, eim=eim),
                o=o, want=want, eim=eim, known=not loose, tight=max(o["top"]) >= NOBOUND)


def run_hopca(ctx, o, rng):
    d = len(o["sz"])
    tree = tensap.DimensionTree.trivial(d)
    o = dict(o, T=F.dump_tree(tree), ina=[])
    o["top"] = [int(o["top"][rng.randint(len(o["top"]))]) or 1 for _ in range(d + 1)]
    want, root = inside(o, rng)
    x = F.dense(F.rtreetensor(rng, tree, o["sz"], act=np.full(d + 1, True), ranks=want))
    pos = L(tree.dim2ind)
    s = tensap.TensorPrincipalComponentAnalysis()
    options(rng, s, o, d + 1, pos)
    fun = Oracle(x, 2.0 ** int(rng.randint(-60, 61)) if rng.rand() < 0.25 else 1.0)
    frame = unchanged(s)
    o["top"], want = [o["top"][p - 1] for p in pos], [want[p - 1] for p in pos]

    def out(res):
        pcs, outs = res
        ev = [vp.to_int(v["number_of_evaluations"]) for v in outs]
        unfold = [np.reshape(np.moveaxis(x, k, 0), (x.shape[k], -1)) for k in range(d)]
        sc = 10 ** 6 / max(1.0, float(np.abs(x).max()))
        A = []
        for k in range(d):
            seen = None if o["adapt"] and o["mode"] == "tol" else outs[k]["samples"]
            A.append(matrix(x, [k], seen, fun.calls, [[v] for v in range(x.shape[k])], ev[k] // x.shape[k]))
        return dict(fun.report(), evals=sum(ev), ev=ev, rows=[int(u.shape[0]) for u in pcs], ranks=[int(u.shape[1]) for u in pcs],
                    gram=[vp.fixs(u.T @ u, 10 ** 6) for u in pcs], rest=[vp.fixs(m - u @ (u.T @ m), sc) for u, m in zip(pcs, unfold)], A=A)

    ctx.observe("hopca", lambda: s.hopca(fun, o["sz"]), out, sig="hopca:%s%s" % (o["mode"], ":adapt" if o["adapt"] else ""), repro=dict(o=o, want=want), o=o, want=want, known=True)


def run_func(ctx, o, rng):
    d = len(o["sz"])
    kind = ["tree", "tucker", "tt"][rng.randint(3)]
    tree = {"tree": lambda: F.tree_from_parent(o["T"]["parent"], o["T"]["dims"]), "tucker": lambda: tensap.DimensionTree.trivial(d), "tt": lambda: tensap.DimensionTree.linear(d)}[kind]()
    o = dict(o, T=F.dump_tree(tree))
    if kind != "tree":
        o["ina"] = [] if kind == "tucker" else sorted(int(v) for v in tree.dim2ind[1:])
    n = tree.nb_nodes
    o["top"] = [int(o["top"][rng.randint(len(o["top"]))]) or 1 for _ in range(n)]
    want, root = inside(o, rng)
    active = np.array([a + 1 not in o["ina"] for a in range(n)])
    # integer coefficients on the monomials; integer points
    c = F.dense(F.rtreetensor(rng, tree, o["sz"], act=active, ranks=want, lo=-1, hi=1))

    def at(z):
        z = np.atleast_2d(z)
        v = c[np.newaxis]
        v = np.repeat(v, len(z), 0)
        for k in range(d):
            v = np.einsum("pi...,pi->p...", v, np.stack([z[:, k] ** j for j in range(o["sz"][k])], 1))
        return v

    log = []

    def fun(z):
        log.append(np.array(z))
        return at(z)

    bases = tensap.FunctionalBases([tensap.PolynomialFunctionalBasis(tensap.LegendrePolynomials(), range(k)) for k in o["sz"]])
    s = tensap.FunctionalTensorPrincipalComponentAnalysis()
    pos = [int(v) for v in (np.nonzero(active)[0] + 1) if v != root][::-1] if kind == "tt" else (L(tree.dim2ind) if kind == "tucker" else list(range(1, n + 1)))
    options(rng, s, o, n, pos)
    s.bases = bases
    s.grid = [np.arange(-2, 3)[rng.permutation(5)[:max(k, 3)]].astype(float).reshape(-1, 1) for k in o["sz"]]
    given = [set(np.ravel(g)) for g in s.grid]
    frame = unchanged(s)
    z = rng.randint(-2, 3, (12, d)).astype(float)
    sc = 10 ** 7 / max(1.0, float(np.abs(at(z)).max()))
    chosen = bases.interpolation_points(s.grid)
    axes = [np.ravel(g) for g in chosen]
    x = np.zeros([len(a) for a in axes])
    for i in np.ndindex(*x.shape):
        x[i] = at(np.array([[axes[k][i[k]] for k in range(d)]]))[0]

    def hout(res):
        fpc, outs = res
        q = np.concatenate(log)
        ev = [vp.to_int(v["number_of_evaluations"]) for v in outs]
        full5 = np.arange(-2, 3).astype(float)
        us, gram, rest, A = [], [], [], []
        top = max(1.0, float(np.abs(at(np.array(np.meshgrid(*[full5] * d)).reshape(d, -1).T)).max()))
        for k in range(d):
            w = [full5 if j == k else axes[j] for j in range(d)]
            m5 = at(np.stack([a.ravel() for a in np.meshgrid(*w, indexing="ij")], 1)).reshape([len(a) for a in w])
            m5 = np.moveaxis(m5, k, 0).reshape(5, -1)
            m = np.moveaxis(x, k, 0).reshape(x.shape[k], -1)
            b = np.asarray(fpc[k].eval(axes[k].reshape(-1, 1)))
            us.append(b)
            gram.append(vp.fixs(b.T @ b, 10 ** 6))
            rest.append(vp.fixs(m5 - np.asarray(fpc[k].eval(full5.reshape(-1, 1))) @ (b.T @ m), 10 ** 6 / top))
            seen = None if o["adapt"] and o["mode"] == "tol" else outs[k]["samples"]
            A.append(matrix(x, [k], seen, [], [[v] for v in range(x.shape[k])], ev[k] // x.shape[k]))
        ok = all(v in set(axes[k]) for k in range(d) for v in q[:, k])
        return dict(calls=len(q), integral=bool(ok), minq=[1] * d, maxq=[1] * d, evals=sum(ev), ev=ev, rows=[int(v.shape[0]) for v in us],
                    ranks=[int(f.cardinal()) for f in fpc], gram=gram, rest=rest, A=A)

    if kind == "tucker" and rng.rand() < 0.5:
        p2 = L(tree.dim2ind)
        oo = dict(o, top=[o["top"][p - 1] for p in p2])
        ctx.observe("hopca", lambda: s.hopca(fun), hout, sig="func:hopca:%s%s" % (o["mode"], ":adapt" if o["adapt"] else ""), repro=dict(o=oo, want=want), o=oo,
                    want=[want[p - 1] for p in p2], known=True)
        return

    def go():
        if kind == "tucker":
            return s.tucker_approximation(fun)
        if kind == "tt":
            return s.tt_approximation(fun)
        return s.tree_based_approximation(fun, tree, active)

    def out(res):
        f, out = res
        q = np.concatenate(log)
        r = common_fields(f.tensor, out, o, tree, want, x, [])
        return dict(r, calls=len(q), points=bool(all(v in given[k] for k in range(d) for v in q[:, k])), f=vp.fixs(np.ravel(f(z)), sc), x=vp.fixs(np.ravel(at(z)), sc), frame=frame())

    ctx.observe("func", go, out, sig="func:%s:%s%s" % (kind, o["mode"], ":adapt" if o["adapt"] else ""), repro=dict(kind=kind, o=o, want=want), o=o, want=want)


def run(ctx):
    ctx.model("PcaSpec", ["NeverOver", "Counted", "Budget", "Fits", "Progress"], constants=["SMAX = 2", "RMAX = 2", "FACS = {1}"])
    if not ctx.quick:
        ctx.model("PcaSpec", ["NeverOver", "Counted", "Budget", "Fits", "Progress"], constants=["SMAX = 2", "RMAX = 2", "FACS = {2}"])
    cases = ctx.generate("PcaSpec", ["SMAX = 4", "RMAX = 3", "FACS = {1, 2, 3}"], init="SimInit", next_="SimNext", simulate=ctx.n(700, 5000), depth=3)
    rng = ctx.sub_rng("cases")
    np.random.seed(rng.randint(2 ** 31))
    for k, o in enumerate(cases):
        o["ina"] = sorted(o["ina"])
        if k % 5 == 3:
            run_hopca(ctx, o, rng)
        elif k % 5 == 4:
            run_func(ctx, o, rng)
        else:
            run_tree(ctx, o, rng)
