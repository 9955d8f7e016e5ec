"""C08: orthogonalisation keeps the tensor and delivers orthonormality."""
import numpy as np
import tensap

import algebra as A
import formats as F
import vp

S6 = 10**6


def dn(a):
    a = np.asarray(a)
    return {"shape": [int(n) for n in a.shape], "data": vp.ints(a, tol=1e-6)}


def g6(m):
    m = np.asarray(m)
    return {"shape": [int(n) for n in m.shape], "data": vp.fixs(m, S6)}


def inner_grams(x, nodes):
    return [g6(F.node_gram(x, int(b))) for b in nodes]


def none(v):
    return v is None


def modes(x):
    """Rank of every node read from the tensors themselves."""
    res = []
    for b in range(1, x.tree.nb_nodes + 1):
        sh = np.shape(x.tensors[b - 1].data)
        if np.size(x.tensors[b - 1].data) == 0:
            res.append(0)
        elif b == x.tree.root and len(sh) == len(x.tree.children(b)) + (1 if x.tree.is_leaf[b - 1] else 0):
            res.append(1)
        else:
            res.append(int(sh[-1]))
    return res


def struct(x):
    return {"tree": F.dump_tree(x.tree), "act": [bool(np.size(t.data)) for t in x.tensors],
            "ranks": [int(v) for v in x.ranks], "modes": modes(x), "is_orth": bool(x.is_orth),
            "orth_node": int(x.orth_node) if x.orth_node is not None else 0, "root": int(x.tree.root)}


def full(ctx, rng):
    x = F.random_obj(rng, "full")
    d = int(rng.randint(x.order))
    arg = d if rng.rand() < 0.8 or d != x.order - 1 else -1

    def out(v):
        q, R = v
        Q, R = np.asarray(q.data), np.asarray(R)
        back = np.moveaxis(np.tensordot(Q, R, axes=(d, 0)), -1, d)
        m = np.moveaxis(Q, d, -1).reshape(-1, Q.shape[d])
        return {"back": dn(back), "grams": [g6(m.T @ m)], "is_orth": bool(q.is_orth), "orth_dim": int(q.orth_dim),
                "rshape": [int(n) for n in q.shape]}

    ctx.observe("fullorth", lambda: x.orth(arg), out, x=F.dump(x), dim=d, sig="full.orth")


def spectra(ctx, rng):
    """Singular values and principal components of full tensors."""
    x = F.random_obj(rng, "full")
    A_ = np.asarray(x.data, dtype=float)
    if np.sum(A_**2) > 600 or x.order < 2:
        return
    fx = F.dump(x)
    u = 2.0 ** int(rng.randint(-70, 71)) if rng.rand() < 0.3 else 1.0
    xs = tensap.FullTensor(u * A_)

    def o_sv(v):
        v = [v, v] if x.order == 2 else list(v)
        v = [np.asarray(s_, dtype=float) / u for s_ in v]
        return {"isnone": [False] * len(v), "none": [False] * len(v), "below": [[k + 1] for k in range(len(v))],
                "values": [vp.fixs(s_, 10000) for s_ in v], "sums": [[vp.to_int(np.sum(s_ ** (2 * k)), tol=1e-6) for k in (1, 2, 3)] for s_ in v]}

    ctx.observe("singular", xs.singular_values, o_sv, x=fx, sig="full.singular_values")
    # principal components of a matricisation
    k = int(rng.randint(1, x.order))
    dims = sorted(int(v) for v in rng.permutation(x.order)[:k])
    rest = [j for j in range(x.order) if j not in dims]
    M = np.transpose(A_, dims + rest).reshape(int(np.prod([A_.shape[j] for j in dims])), -1, order="F")
    nmax = min(M.shape)
    r = int(rng.randint(1, nmax + 1))
    par = [None, r, nmax + 3][rng.randint(3)]
    how = rng.randint(2)
    arg = dims if k > 1 or rng.rand() < 0.5 else dims[0]

    def fn():
        if how:
            return xs.alpha_principal_components(arg, par) if par is not None else xs.alpha_principal_components(arg)
        return xs.matricize(arg).principal_components(par)

    def o_pc(v):
        pc, d = np.asarray(v[0]), np.asarray(v[1])
        s_ = np.linalg.norm(pc.T @ M, axis=1)
        return {"below": [j + 1 for j in dims], "count": int(pc.shape[1]), "rows": int(pc.shape[0]), "diag": vp.fixs(np.diag(d) / u, 1000), "seen": vp.fixs(s_, 1000),
                "offdiag": bool(d.shape == (pc.shape[1],) * 2 and np.count_nonzero(d - np.diag(np.diag(d))) == 0), "grams": [g6(pc.T @ pc)],
                "sums": [vp.to_int(np.sum((np.diag(d) / u) ** (2 * j)), tol=1e-6) if par != r or r == nmax else 0 for j in (1, 2, 3)],
                "want": r if par == r else nmax, "full": bool(par != r or r == nmax),
                "best": vp.fixs(np.linalg.svd(M, compute_uv=False)[: int(pc.shape[1])], 1000)}

    ctx.observe("pca", fn, o_pc, x=fx, sig="full.principal_components")


def canonical(ctx, rng):
    x = F.random_obj(rng, "canonical")

    def out(v):
        sp = [np.asarray(a) for a in v.space]
        core = np.asarray(v.core.full().data if hasattr(v.core, "full") else v.core.data)
        for k, m in enumerate(sp):
            core = np.moveaxis(np.tensordot(core, m, axes=(k, 1)), -1, k)
        return {"back": dn(core), "grams": [g6(m.T @ m) for m in sp]}

    ctx.observe("canonicalorth", x.orth, out, x=F.dump(x), sig="canonical.orth")


def below(x, a):
    return [int(k) + 1 for k in sorted(x.tree.dims[a - 1])]


def worn(rng, x):
    """x itself, or x orthogonalised before, at the root or elsewhere."""
    u = rng.rand()
    if u < 0.5:
        return x
    if u < 0.7:
        return x.orth()
    y = x.orth_at_node(int(x.active_nodes[rng.randint(len(x.active_nodes))]))
    return y.orth() if rng.rand() < 0.2 else y


def rnd_tree(rng):
    shape = F.rshape(rng, int(rng.choice([1, 2, 3, 3, 4])))
    rr = 1 if rng.rand() < 0.8 else 2
    x = F.rtreetensor(rng, F.rtree(rng, len(shape)), shape, rmax=3, root_rank=rr, lo=-1, hi=1)
    if rng.rand() < 0.25:
        # over-parametrised: same tensor with a deficient representation
        y = F.rtreetensor(rng, x.tree, shape, act=np.array(x.is_active_node), root_rank=int(x.ranks[x.tree.root - 1]), lo=-1, hi=1) * 0
        try:
            x = x + y if rng.rand() < 0.5 else x + x
        except Exception:
            pass
    return x


def tree(ctx, rng):
    x = rnd_tree(rng)
    fx = F.dump(x)
    if np.abs(F.dense(x)).max(initial=0) > 30:
        return
    # laws do not depend on an exact scaling u
    x0, u = x, 1.0
    if rng.rand() < 0.3:
        u = 2.0 ** int(rng.randint(-70, 71))
        x = u * x
    rootrank = int(x.ranks[x.tree.root - 1])
    tag = "" if rootrank == 1 else "(vector)"

    def o_orth(v):
        o = struct(v)
        o.update(back=dn(F.dense(v) / u), grams=inner_grams(v, [b for b in v.active_nodes if b != v.tree.root]),
                 norm2=vp.to_int((float(v.norm()) / u) ** 2, tol=1e-7))
        return o

    ctx.observe("treeorth", x.orth, o_orth, x=fx, sig="tree.orth" + tag)
    if rng.rand() < 0.3:
        ctx.observe("treeorth", lambda: x.orth().orth(), o_orth, x=fx, sig="tree.orth.orth" + tag)
    for a in x.active_nodes:
        a = int(a)
        if a == x.tree.root or (rng.rand() < 0.5):
            continue
        src = worn(rng, x)

        def o_at(v):
            o = struct(v)
            asc = [int(b) for b in v.tree.ascendants(a)]
            w = F.above_frame(v, a)
            o.update(back=dn(F.dense(v) / u), above=g6(w.T @ w), a=a,
                     grams=inner_grams(v, [b for b in v.active_nodes if b != a and b not in asc]),
                     norm2=vp.to_int((float(v.norm()) / u) ** 2, tol=1e-7))
            return o

        ctx.observe("orthat", lambda: src.orth_at_node(a), o_at, x=fx, sig="tree.orth_at_node" + tag)
    prior = worn(rng, x)
    ctx.observe("treeorth", prior.orth, o_orth, x=fx, sig="tree.again.orth" + tag)
    ctx.observe("treeorth", lambda: x.orth_at_node(int(x.tree.root)), o_orth, x=fx, sig="tree.orth_at_node(root)" + tag)
    nodes = [int(b) for b in x.tree.nodes_indices]

    def o_gram(sel, single):
        def f(v):
            G, t = v
            G = [G] if single else list(G)
            ugu, bl, isn = [], [], []
            for b, g in zip(sel, G):
                bl.append(below(x, b))
                isn.append(none(g))
                if none(g):
                    ugu.append({"shape": [0], "data": []})
                    continue
                fr, _ = F.node_frame(t, b)
                ugu.append(dn(fr @ (np.asarray(g) / u**2) @ fr.T))
            return {"back": dn(F.dense(t) / u), "grams": inner_grams(t, [b for b in t.active_nodes if b != t.tree.root]), "ugu": ugu,
                    "below": bl, "isnone": isn, "none": [not bool(x.is_active_node[b - 1]) for b in sel]}
        return f

    src = worn(rng, x)
    ctx.observe("gramians", src.gramians, o_gram(nodes, False), x=fx, sig="tree.gramians" + tag)
    act = [int(b) for b in x.active_nodes if b != x.tree.root]
    if act:
        a = act[rng.randint(len(act))]
        ctx.observe("gramians", lambda: src.gramians(a), o_gram([a], True), x=fx, sig="tree.gramians(node)" + tag)
        sel = [int(b) for b in rng.permutation(act)[: int(rng.randint(1, len(act) + 1))]]
        if len(sel) > 1:
            ctx.observe("gramians", lambda: src.gramians(np.array(sel)), o_gram(sel, False), x=fx, sig="tree.gramians(nodes)" + tag)

    def o_sv(v):
        isn, sums, vals = [], [], []
        for b, s in zip(nodes, v):
            isn.append(none(s))
            s = np.zeros(0) if none(s) else np.array(s, dtype=float) / u
            vals.append(vp.fixs(s, 10000))
            sums.append([vp.to_int(np.sum(s ** (2 * k)), tol=1e-6) for k in (1, 2, 3)])
        return {"isnone": isn, "sums": sums, "values": vals, "below": [below(x, b) for b in nodes],
                "none": [not bool(x.is_active_node[b - 1]) for b in nodes]}

    dense = F.dense(x0)
    if np.sum(dense**2) <= 600:
        ctx.observe("singular", src.singular_values, o_sv, x=fx, sig="tree.singular_values" + tag)

    x = x0
    # announcements after further operations on an orthogonalised tensor
    xo = x.orth()
    c = float(rng.choice([-2, 3, 0]))
    n = x.order
    ops = {"neg": lambda: -xo, "scale": lambda: c * xo, "div": lambda: xo / 2 * 2, "copy": lambda: tensap.TreeBasedTensor(xo),
           "add": lambda: xo + xo, "matrices": lambda: xo.tensor_matrix_product([A.mat(rng, 2, int(s)) for s in x.shape]),
           "sub": lambda: xo.sub_tensor(*[[0, int(s) - 1] for s in x.shape]), "inactivate": lambda: xo.inactivate_nodes(xo.tree.dim2ind[xo.active_dims]),
           "activate": lambda: xo.activate_nodes(xo.non_active_nodes), "hadamard": lambda: xo * xo, "orthat": lambda: xo.orth_at_node(int(rng.choice(xo.active_nodes))),
           "unique": lambda: xo.remove_unique_children(), "perm": lambda: xo.permute_leaves(rng.permutation(n)) if n > 1 and rootrank == 1 else xo,
           "root": lambda: xo.change_root(int(rng.choice(xo.active_nodes))) if rootrank == 1 and n > 1 else xo,
           "map": lambda: np.array([[1.0, 2.0], [0, 1], [1, 1]]) * xo if rootrank == 2 else xo}
    if len(xo.tree.nodes_indices) == 1:
        for k in ("inactivate", "activate"):
            ops.pop(k)
    for k in ops:
        if rng.rand() < 0.5:
            continue
        np.random.seed(3)

        def o_d(v):
            o = struct(v)
            o.update(norm2=vp.to_int(float(v.norm()) ** 2, tol=1e-7), dense2=vp.to_int(float(np.sum(F.dense(v) ** 2)), tol=1e-7),
                     grams=inner_grams(v, [b for b in v.active_nodes if b != v.tree.root]))
            return o

        ctx.observe("derived", ops[k], o_d, x={"fmt": "full", "shape": [1], "data": [0]}, sig="after_orth." + k + tag)


def run(ctx):
    ctx.model("OrthSpec", ["GramLaw"], constants=["E = 1"], init="ModelInit", next_="ModelNext")
    rng = ctx.sub_rng("full")
    for _ in range(ctx.n(250, 3000)):
        full(ctx, rng)
        canonical(ctx, rng)
        spectra(ctx, rng)
    rng = ctx.sub_rng("full sv")
    for _ in range(ctx.n(350, 5000)):
        tree(ctx, rng)
