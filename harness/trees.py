"""Dimension trees: dumps, queries, and replay of generated behaviours."""
import numpy as np
import tensap

import formats as F
import vp

T2 = F.dump_tree


def L(v):
    return [int(t) for t in np.ravel(np.asarray(v))]


def queries(rng, t):
    n = int(t.nb_nodes)
    nodes = range(1, n + 1)
    some = [int(v) for v in rng.permutation(len(t.dim2ind))[: int(rng.randint(1, len(t.dim2ind) + 1))]]
    q = {
        "nb_nodes": n, "nodes_indices": L(t.nodes_indices), "root": int(t.root), "arity": int(t.arity),
        "parent": [int(t.parent(a)) for a in nodes],
        "children": [L(t.children(a)) for a in nodes],
        "child_number": [int(t.child_number(a)) for a in nodes],
        "sibling": [[int(v) for v in np.ravel(t.sibling[:, a - 1]) if v] for a in nodes],
        "level": L(t.level),
        "with_level": [L(t.nodes_with_level(k)) for k in range(int(np.max(t.level)) + 2)],
        "ascendants": [L(t.ascendants(a)) for a in nodes],
        "descendants": [L(t.descendants(a)) for a in nodes],
        "is_leaf": [bool(v) for v in t.is_leaf],
        "internal": L(t.internal_nodes),
        "parents_of_leaves": L(t.nodes_parent_of_leaves),
        "dims": [[int(v) + 1 for v in np.ravel(d)] for d in t.dims],
        "with_dims": [L(t.node_with_dims(t.dims[a - 1] if rng.rand() < 0.5 else list(rng.permutation(np.ravel(t.dims[a - 1]))))) for a in nodes],
        "some_dims": [v + 1 for v in some],
        "no_dims": L(t.node_with_dims(some)),
        "layout": [],
    }
    if n > 1:
        pos = t.tree_layout()
        q["layout"] = [[vp.fix(pos[a - 1][0], 10**6), vp.fix(pos[a - 1][1], 10**6)] for a in nodes]
    return q


def build(d):
    return F.tree_from_parent(d["parent"], d["dims"])


def op_thunk(t, op):
    k, a = op["k"], op["a"]
    s = [int(v) - 1 for v in op["s"]]
    if k == "permute":
        return lambda: (t.permute(s), [])
    if k == "ipermute":
        return lambda: (t.ipermute(s), [])
    if k == "reroot":
        return lambda: t.change_root(a)
    if k == "add":
        return lambda: (t.add_child(a), [])
    if k == "sub":
        return lambda: t.sub_dimension_tree(a)
    raise ValueError(k)


def random_op(rng, t):
    n, d = int(t.nb_nodes), len(t.dim2ind)
    k = ["permute", "ipermute", "reroot", "reroot", "add", "sub"][rng.randint(6)]
    a = int(rng.randint(1, n + 1))
    if k == "reroot" and len(t.children(t.root)) < 2:
        k = "permute"
    if k == "add" and n > 11:
        k = "sub"
    if k == "sub" and (t.is_leaf[a - 1] or rng.rand() < 0.4):
        a = int(t.root)
    return {"k": k, "a": a, "s": [int(v) + 1 for v in rng.permutation(d)] if "permute" in k else []}


def relabel(rng, d):
    n = len(d["parent"])
    sig = rng.permutation(n) + 1
    par = [0] * n
    for a in range(n):
        par[sig[a] - 1] = int(sig[d["parent"][a] - 1]) if d["parent"][a] else 0
    return {"parent": par, "dims": [int(sig[v - 1]) for v in d["dims"]]}


def behaviours(ctx):
    """TLC-generated histories (start tree, operations)."""
    res = ctx.generate("TreeGen", constants=["N0 = %d" % ctx.n(3, 4), "L = %d" % 2, "NMAX = 6"], invariants=["Emit", "WellFormed"])
    rng = ctx.sub_rng("behaviours")
    lim = ctx.n(500, 6000)
    if len(res) > lim:
        res = [res[i] for i in sorted(rng.permutation(len(res))[:lim])]
    sim = ctx.generate("TreeGen", constants=["N0 = 2", "L = 6", "NMAX = 8"], init="InitRun", invariants=["Emit"], simulate=ctx.n(40, 600), depth=8)
    lim = ctx.n(150, 3000)
    if len(sim) > lim:
        sim = [sim[i] for i in sorted(rng.permutation(len(sim))[:lim])]
    return res + sim


def random_tree(rng, dmax=6):
    """A tree as a program may build it, possibly with one-child nodes."""
    d = int(rng.randint(1, dmax + 1))
    t = F.rtree(rng, d)
    for _ in range(int(rng.randint(0, 3))):
        if rng.rand() < 0.3:
            t = t.add_child(int(rng.randint(1, t.nb_nodes + 1)))
    return t
