"""C06: tree transformations do exactly what they say."""
import formats as F
import trees as T


def step(ctx, t, op, sig=""):
    x = F.dump_tree(t)
    th = T.op_thunk(t, op)

    def out(v):
        return {"out": F.dump_tree(v[0]), "nod": T.L(v[1]), "xafter": F.dump_tree(t)}

    v = ctx.observe(op["k"], th, out, sig=op["k"] + sig, x=x, a=op["a"], s=op["s"])
    return v[0] if v is not None else None


def equal(ctx, t, u):
    def out(v):
        return {"val": bool(v[0]), "neval": bool(v[1]), "xafter": F.dump_tree(t)}

    ctx.observe("eq", lambda: (t == u, t != u), out, sig="eq", x=F.dump_tree(t), y=F.dump_tree(u))


def neighbours(rng, t):
    d = F.dump_tree(t)
    yield T.build(d)
    yield T.build(T.relabel(rng, d))
    yield t.permute([int(v) for v in rng.permutation(len(d["dims"]))])
    a = int(rng.randint(1, t.nb_nodes + 1))
    yield t.add_child(a)
    yield T.build(T.relabel(rng, F.dump_tree(t.add_child(a))))
    if len(t.children(t.root)) > 1:
        yield t.change_root(a)[0]
    # one node moved under another parent
    par = list(d["parent"])
    moves = [(b, c) for b in range(1, len(par) + 1) for c in range(1, len(par) + 1)
             if par[b - 1] and c != b and not t.is_leaf[c - 1] and c not in t.descendants(b) and len(t.children(par[b - 1])) > 1]
    for _ in range(min(2, len(moves))):
        b, c = moves[rng.randint(len(moves))]
        q = list(par)
        q[b - 1] = c
        yield T.build({"parent": q, "dims": d["dims"]})


PARENTS = ([0, 1, 1, 2, 2, 3, 3], [0, 1, 1, 1, 2, 2, 3, 3, 4, 4], [0, 1, 1, 2, 2, 3, 3, 5, 5], [0, 1, 1, 2, 2, 2, 3, 3, 3],
           [0, 1, 1, 2, 2, 4, 4, 3, 3, 8, 8], [0, 1, 1, 2, 2, 4, 4, 6, 6])


def lookalikes(ctx, rng, per):
    """Trees of one shape whose nodes carry different dimensions with the same
    number, sum, extreme, or first dimension."""
    for par in PARENTS:
        leaves = [k for k in range(1, len(par) + 1) if k not in par]
        below = {k: [k] if k in leaves else [] for k in range(1, len(par) + 1)}
        for k in leaves:
            a = par[k - 1]
            while a:
                below[a].append(k)
                a = par[a - 1]
        inner = [k for k in below if k not in leaves]
        level = lambda k: 0 if par[k - 1] == 0 else 1 + level(par[k - 1])  # noqa: E731
        groups = {}
        for _ in range(400):
            place = dict(zip(leaves, (int(v) for v in rng.permutation(len(leaves)))))
            ds = [(level(k), sorted(place[j] for j in below[k])) for k in inner]
            key = frozenset((i, tuple(d)) for i, d in ds)
            for name, inv in (("sum", sum), ("max", max), ("min", min), ("ends", lambda d: (d[0], d[-1])), ("squares", lambda d: sum(v * v for v in d))):
                g = groups.setdefault((name, tuple(sorted((i, len(d), inv(d)) for i, d in ds))), {})
                g.setdefault(key, place)
        pool = {}
        for (name, _), g in groups.items():
            if len(g) > 1:
                pool.setdefault(name, []).append(list(g.values()))
        for name in sorted(pool):
            for _ in range(per):
                g = pool[name][rng.randint(len(pool[name]))]
                i, j = rng.permutation(len(g))[:2]
                ts = [T.build({"parent": par, "dims": dim2leaf(p)}) for p in (g[i], g[j])]
                equal(ctx, ts[0], ts[1])


def dim2leaf(place):
    return [k for k, _ in sorted(place.items(), key=lambda t: t[1])]


def run(ctx):
    ctx.model("TreeGen", ["WellFormed", "Laws", "EqLaw"], constants=["N0 = %d" % ctx.n(3, 4), "L = %d" % ctx.n(1, 1), "NMAX = 5"])
    rng = ctx.sub_rng("walks")
    for b in T.behaviours(ctx):
        t = T.build(b["init"])
        for op in b["ops"]:
            t = step(ctx, t, op)
            if t is None:
                break
        if t is not None:
            equal(ctx, t, T.build(b["init"]))
    for _ in range(ctx.n(120, 2500)):
        t = T.random_tree(rng)
        for _ in range(5):
            t = step(ctx, t, T.random_op(rng, t))
            if t is None:
                break
    start = ctx.generate("TreeGen", constants=["N0 = 4", "L = 0", "NMAX = 9"], invariants=["EmitInit"], next_="None")
    small = [s for s in start if len(s["parent"]) <= 3]
    for x in small:
        for y in small:
            equal(ctx, T.build(x), T.build(y))
    lookalikes(ctx, ctx.sub_rng("lookalikes"), ctx.n(4, 40))
    for _ in range(ctx.n(300, 5000)):
        t = T.build(start[rng.randint(len(start))]) if rng.rand() < 0.4 else T.random_tree(rng)
        for u in neighbours(rng, t):
            equal(ctx, t, u)
            equal(ctx, u, t)
