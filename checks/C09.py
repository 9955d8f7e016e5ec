"""C09: truncation respects tolerance and rank bounds."""
import numpy as np
import tensap

import formats as F
import vp

Q = 10  # tolerances are p / Q


def orthogonal(rng, n):
    """Integer matrix c * orthogonal, with c."""
    m, c = np.eye(n), 1
    if n > 1 and rng.rand() < 0.6:
        i, j = rng.permutation(n)[:2]
        m = 5 * np.eye(n)
        m[i, i], m[i, j], m[j, i], m[j, j] = 3, 4, -4, 3
        c = 5
    m = m[rng.permutation(n)] * rng.choice([-1, 1], n)
    return m, c


def conf_of(t):
    mr = t.max_rank
    return {"tolerance": repr(t.tolerance), "max_rank": repr(np.asarray(mr).tolist()), "type": str(t.thresholding_type), "param": repr(t.thresholding_parameter)}


def conf(t, p, mr, thr="none", tau=0, q=Q):
    return {"p": p, "q": q, "mr": mr, "thr": thr, "tau": tau, "obj": conf_of(t)}


def svd_case(ctx, rng, t, cf, sig, pow_=2):
    m, n = int(rng.randint(1, 5)), int(rng.randint(1, 5))
    r = min(m, n)
    U, cu = orthogonal(rng, m)
    V, cv = orthogonal(rng, n)
    s = np.sort(rng.randint(0, 5, r))[::-1]
    if rng.rand() < 0.3:
        s = np.array([4] + [1] * (r - 1))
    D = np.zeros((m, n))
    D[np.arange(r), np.arange(r)] = s
    M = U @ D @ V
    sv = [int(v) * cu * cv for v in s]
    u = 2.0 ** int(rng.randint(-70, 71)) if cf["thr"] == "none" and rng.rand() < 0.3 else 1.0
    M0 = M
    M = u * M
    if pow_ != 2:
        form = 0
    else:
        form = int(rng.randint(6))
    if cf["thr"] != "none":
        form = min(form, 1)

    def inp():
        if form == 0:
            return M
        if form == 1:
            return tensap.FullTensor(M)
        if form == 2:
            return tensap.CanonicalTensor([M, np.eye(n)], np.ones(n))
        return tensap.FullTensor(M)

    if pow_ != 2:
        fn = lambda: t.trunc_svd(M, power=pow_ if pow_ else np.inf)  # noqa
    elif form == 3:
        fn = lambda: t.truncate(M)  # noqa
    elif form in (4, 5):
        fn = lambda: t.hosvd(M if form == 4 else tensap.FullTensor(M))  # noqa
    else:
        fn = lambda: t.svd(inp())  # noqa

    def out(v):
        core = np.atleast_1d(np.asarray(v.core.data)) / u
        a, b = [np.asarray(w) for w in v.space]
        B = (a * core) @ b.T
        return {"core": vp.fixs(core, 1000), "err2": vp.fix(np.sum((M0 - B) ** 2), 100),
                "grams": [farr6(a.T @ a), farr6(b.T @ b)], "confafter": dict(cf, obj=conf_of(t)),
                "shape": [int(k) for k in v.shape]}

    ctx.observe("svd", fn, out, x=F.full_rec(M0), sv=sv, power=pow_, conf=cf, sig=sig + ".svd" + ("", ".full", ".canonical", ".truncate", ".hosvd", ".hosvd")[form])


def farr6(m):
    return vp.farr(np.asarray(m), 10**6)


def full_rank(tree, shape, rootdim=1):
    res = []
    for a in range(1, tree.nb_nodes + 1):
        d = list(tree.dims[a - 1])
        res.append(int(min(np.prod([shape[k] for k in d]), np.prod([shape[k] for k in range(len(shape)) if k not in d]) * rootdim)))
    return res


def trunc_out(t, cf, bounds, tree, act, shape, rootdim=1, u=1.0):
    def out(v):
        if isinstance(v, tensap.CanonicalTensor):
            v = v.tree_based_tensor()
        dense = F.dense(v) / u
        b = bounds
        return {"out": {"shape": [int(k) for k in dense.shape], "data": vp.fixs(dense, 1000)}, "ranks": [int(k) for k in v.ranks],
                "tree": F.dump_tree(v.tree), "act": [bool(np.size(w.data)) for w in v.tensors], "root": int(v.tree.root),
                "wanttree": F.dump_tree(tree), "wantact": [bool(k) for k in act], "bounds": [int(k) for k in b],
                "full": full_rank(tree, shape, rootdim), "selfnorm2": vp.fix((float(v.norm()) / u) ** 2, 1000),
                "norm2": vp.fix(float(np.sum(dense**2)), 1000), "confafter": dict(cf, obj=conf_of(t))}
    return out


def latin(rng, n):
    v = rng.randint(0, 6, (n, n))
    if rng.rand() < 0.5:
        v = np.where(rng.rand(n, n) < 0.4, 5, rng.randint(0, 3, (n, n)))
    x = np.zeros((n, n, n))
    for i in range(n):
        for j in range(n):
            x[i, j, (-(i + 1) - (j + 1) - 1) % n] = v[i, j]
    return x


def act_for(rng, tree):
    a = F.ractive(rng, tree)
    a[tree.root - 1] = True
    return a


def use(ctx, rng, t, cf, kind, data, sig, op="trunc"):
    """One use of the truncation object on the array `data`."""
    d = data.ndim
    shape = list(data.shape)
    x = F.full_rec(data)
    # tolerances are relative: an exact scaling u changes no decision
    u = 1.0
    if rng.rand() < 0.3:
        u = 2.0 ** int(rng.randint(-70, 71))
        data = u * data
    mr = t.max_rank
    per_node = np.size(mr) > 1
    mrs = 0 if (np.size(mr) == 1 and np.isinf(mr)) else None
    if kind in ("hosvd", "truncate"):
        tree = tensap.DimensionTree.trivial(d)
        act = np.full(d + 1, True)
        fn = (lambda: t.hosvd(tensap.FullTensor(data) if rng.rand() < 0.7 else data)) if kind == "hosvd" else (lambda: t.truncate(tensap.FullTensor(data) if rng.rand() < 0.7 else data))
        bounds = [0] + ([0] * d if mrs == 0 else ([int(v) for v in mr] if per_node else [int(mr)] * d))
    elif kind == "ttsvd":
        tree = tensap.DimensionTree.linear(d)
        act = np.full(tree.nb_nodes, True)
        act[tree.dim2ind[1:] - 1] = False
        fn = lambda: t.ttsvd(tensap.FullTensor(data))  # noqa
        bounds = [0] * tree.nb_nodes if mrs == 0 else ([int(v) for v in mr] if per_node else [int(mr)] * tree.nb_nodes)
    else:
        tree = F.rtree(rng, d) if kind != "given" else None
        if per_node:
            while tree.nb_nodes != np.size(mr):
                tree = F.rtree(rng, d)
        act = act_for(rng, tree)
        bounds = [0] * tree.nb_nodes if mrs == 0 else ([int(v) for v in mr] if per_node else [int(mr)] * tree.nb_nodes)
        if kind == "hsvd":
            if act.all() and rng.rand() < 0.5:
                fn = lambda: t.hsvd(tensap.FullTensor(data), tree)  # noqa
            else:
                fn = lambda: t.hsvd(tensap.FullTensor(data), tree, act)  # noqa
        else:
            y = tensap.Truncator(tolerance=0).hsvd(tensap.FullTensor(data), tree, act)
            if rng.rand() < 0.3:
                y = y + y * 0
            if kind == "hsvdtree" or rng.rand() < 0.5:
                fn = lambda: t.hsvd(y)  # noqa
            else:
                fn = lambda: t.truncate(y)  # noqa
    maxtol = d if kind in ("hosvd", "truncate") else max(1, int(np.count_nonzero(act)) - 1)
    if kind in ("hsvd", "ttsvd"):
        # successive truncations are relative to the norm of what is left
        maxtol = 2 * maxtol if cf["p"] * 10 <= 7 * cf["q"] else 0
    ctx.observe(op, fn, trunc_out(t, cf, bounds, tree, act, shape, u=u), sig="%s.%s" % (sig, kind), x=x, conf=cf, maxtol=maxtol)


def vector(ctx, rng, t, cf):
    """Vector-valued tensors: the last mode is the rank of the root."""
    d = int(rng.randint(2, 4))
    shape = F.rshape(rng, d)
    rr = int(rng.randint(2, 4))
    data = F.rint(rng, tuple(shape) + (rr,))
    tree = F.rtree(rng, d)
    if tree.nb_nodes == 1:
        return
    act = act_for(rng, tree)
    bounds = [0 if np.isinf(t.max_rank) else int(t.max_rank)] * tree.nb_nodes
    fn = lambda: t.hsvd(tensap.FullTensor(data), tree, act)  # noqa
    ctx.observe("trunc", fn, trunc_out(t, cf, bounds, tree, act, shape, rr), x=F.full_rec(data), conf=cf, maxtol=0, sig="vector.hsvd")
    if np.isinf(t.max_rank):
        y = tensap.Truncator(tolerance=0).hsvd(tensap.FullTensor(data), tree, act)
        ctx.observe("trunc", lambda: t.hsvd(y), trunc_out(t, cf, bounds, tree, act, shape, rr), x=F.full_rec(data), conf=cf, maxtol=0, sig="vector.hsvd(tree)")


def tensors(rng):
    """Arrays with entries of small integers."""
    k = rng.randint(4)
    d = int(rng.choice([3, 3, 4]))
    if k == 0:
        return latin(rng, int(rng.randint(2, 4)))
    shape = F.rshape(rng, d, maxsize=36)
    if k == 1:
        return F.rint(rng, tuple(shape))
    if k == 2:
        return np.round(F.dense(F.rcanonical(rng, shape, int(rng.randint(1, 3)))))
    # dominated by one entry, with small pieces elsewhere
    x = np.where(rng.rand(*shape) < 0.35, rng.randint(-1, 2, shape), 0).astype(float)
    x[tuple(rng.randint(0, n) for n in shape)] = 5
    return x


KINDS = ["hosvd", "hsvd", "hsvdtree", "ttsvd", "truncate", "truncatetree"]


def run(ctx):
    ctx.model("TruncSpec", ["RankLaw"], constants=["NS = %d" % ctx.n(4, 5), "SMAX = %d" % ctx.n(4, 6), "TOLS = 8", "DIV = 1"], init="RankInit", next_="RankNext")
    ctx.model("TruncSpec", ["ModeLaw"], constants=["NS = 1", "SMAX = %d" % ctx.n(3, 5), "TOLS = 10", "DIV = 3"], init="ModeInit", next_="ModeNext")
    rng = ctx.sub_rng("svd")
    for _ in range(ctx.n(900, 10000)):
        p, mr = int(rng.choice([0, 1, 2, 3, 5, 7, 9])), int(rng.choice([0, 0, 1, 2, 3]))
        thr = str(rng.choice(["none", "none", "hard", "soft"]))
        # away from ties with integer singular values (1, 5 or 25 times integers)
        tau = int(rng.choice([1, 2, 3, 6, 12, 26, 60, 130])) if thr != "none" else 0
        pow_ = int(rng.choice([2, 2, 2, 1, 0]))
        t = tensap.Truncator(p / Q + 1e-11, mr or np.inf, "hard" if thr == "none" else thr, (tau - 0.0) or None)
        if thr == "none":
            t = tensap.Truncator(p / Q + 1e-11, mr or np.inf)
        svd_case(ctx, rng, t, conf(t, p, mr, thr, tau), "new", pow_)
    rng = ctx.sub_rng("tensors")
    for _ in range(ctx.n(700, 8000)):
        p, mr = int(rng.choice([0, 1, 2, 3, 5, 7])), int(rng.choice([0, 0, 0, 1, 2, 3]))
        t = tensap.Truncator(max(p / Q, 1e-12), mr or np.inf)
        x = tensors(rng)
        cf = conf(t, p, mr)
        if rng.rand() < 0.1:
            vector(ctx, rng, t, cf)
        if rng.rand() < 0.03:
            x = x * 0
        use(ctx, rng, t, cf, KINDS[rng.randint(len(KINDS))], x, "zero" if not x.any() else "new")
    # tolerances at the critical values of tensors with known truncations
    rng = ctx.sub_rng("latin")
    for _ in range(ctx.n(500, 6000)):
        x = latin(rng, int(rng.randint(2, 4)))
        tot = np.sum(x**2)
        if not x.any():
            continue
        s = [np.sort(np.sum(x**2, axis=tuple(j for j in range(3) if j != k)))[::-1] for k in range(3)]
        crit = sorted({float(np.sqrt(v.sum() - v[:k].sum()) / np.sqrt(tot)) for v in s for k in range(1, len(v) + 1)})
        e = rng.choice(crit) * (1 if rng.rand() < 0.6 else np.sqrt(rng.choice([1, 3, 4])))
        q = 100
        p = int(np.floor(e * q)) + 1
        if p >= q:
            continue
        kind = KINDS[rng.randint(len(KINDS))]
        # the truncations share the tolerance equally
        t = tensap.Truncator(p / q, np.inf)
        use(ctx, rng, t, conf(t, p, 0, q=q), kind, x, "critical", "latin")
    # bounds given per mode or per node
    rng = ctx.sub_rng("bounds")
    for _ in range(ctx.n(200, 2500)):
        x = tensors(rng)
        p = int(rng.choice([0, 1, 3]))
        kind = str(rng.choice(["hosvd", "hsvd", "hsvdtree", "ttsvd"]))
        n = x.ndim if kind == "hosvd" else (2 * x.ndim - 1 if kind == "ttsvd" else int(rng.choice([x.ndim + 1, 2 * x.ndim - 1])))
        mr = rng.randint(1, 4, n)
        if kind != "hosvd" and rng.rand() < 0.5:
            mr = np.full(n, 50)
            mr[rng.randint(n)] = 1
        arg = [int(v) for v in mr] if rng.rand() < 0.5 else mr
        t = tensap.Truncator(max(p / Q, 1e-12), arg)
        for rep in range(2):
            use(ctx, rng, t, conf(t, p, 0), kind, x, "bounds" if rep == 0 else "bounds(again)")
    # histories of one object
    rng = ctx.sub_rng("histories")
    hist = ctx.generate("TruncSpec", constants=["NS = 6", "SMAX = 1", "TOLS = 2", "DIV = 1"], init="HInit", next_="HNext", invariants=["EmitH"],
                        simulate=ctx.n(20, 300), depth=8)
    lim = ctx.n(150, 2500)
    if len(hist) > lim:
        hist = [hist[i] for i in sorted(rng.permutation(len(hist))[:lim])]
    for h in hist:
        pool = [tensors(rng) for _ in range(6)]
        if rng.rand() < 0.5:
            pool[1] = pool[0]
        t = tensap.Truncator(0.1, np.inf)
        p, mr = 1, 0
        for ev in h:
            if ev["k"] == "settol":
                p = [0, 1, 3, 5, 7][ev["v"]]
                t.tolerance = max(p / Q, 1e-12)
            elif ev["k"] == "setmax":
                mr = ev["v"]
                t.max_rank = mr or np.inf
            else:
                cf = conf(t, p, mr)
                if ev["k"] == "svd":
                    t2 = t
                    if 0 < p:
                        svd_case(ctx, rng, t2, cf, "history")
                else:
                    use(ctx, rng, t, cf, ev["k"], pool[ev["v"] - 1], "history")
