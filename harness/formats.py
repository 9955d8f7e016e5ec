"""Builders of random objects of every tensor format, and their dumps (the
projection of real objects onto the abstract objects of spec/FormatSpec.tla)."""

import numpy as np
import tensap

import vp

I = vp.ints


# ------------------------------------------------------------------ dumping
def dense(x):
    """Reference dense array of a tensap object, computed from its raw data
    by definition (not by the library's own conversion)."""
    if isinstance(x, tensap.FullTensor):
        return np.array(x.data)
    if isinstance(x, tensap.CanonicalTensor):
        core = np.asarray(x.core.data)
        sp = [np.asarray(getattr(a, "data", a)) for a in x.space]
        if isinstance(x.core, tensap.DiagonalTensor):
            d = len(sp)
            args = []
            for k in range(d):
                args += [sp[k], [k, d]]
            return np.einsum(*args, core, [d], list(range(d)))
        return dense(x.core)
    if isinstance(x, tensap.DiagonalTensor):
        d = int(x.order)
        out = np.zeros([x.data.size] * d)
        for i, v in enumerate(x.data):
            out[(i,) * d] = v
        return out
    if isinstance(x, tensap.SparseTensor):
        out = np.zeros(tuple(int(n) for n in np.atleast_1d(x.shape)))
        a = np.asarray(x.indices.array)
        dat = np.atleast_1d(x.data)
        for i in range(a.shape[0]):
            out[tuple(a[i])] += dat[i]
        return out
    if isinstance(x, tensap.TreeBasedTensor):
        return dense_tree(x)
    if hasattr(x, "toarray"):
        return x.toarray()
    return np.asarray(x)


def dense_tree(x):
    adj = np.asarray(x.tree.adjacency_matrix)
    d2i = [int(v) for v in x.tree.dim2ind]
    n = adj.shape[0]
    root = [j for j in range(n) if adj[:, j].sum() == 0][0]
    d = len(d2i)

    def val(a):
        ch = [int(c) for c in np.nonzero(adj[a])[0]]
        t = np.asarray(x.tensors[a].data)
        if not ch:
            return t, [d2i.index(a + 1)]
        # labels: edges 1000+node, dims, rank mode 999
        ops, out = [], []
        lab = []
        rest = []
        for c in ch:
            if np.size(x.tensors[c].data) == 0:
                dim = d2i.index(c + 1)
                lab.append(dim)
                out.append(dim)
            else:
                v, ds = val(c)
                lab.append(20 + c)
                rest += [v, ds + [20 + c]]
                out += ds
        extra = t.ndim - len(ch)
        ops = [t, lab + [19] * extra] + rest
        return np.einsum(*ops, out + [19] * extra), out

    if d == 1 and n == 1:
        t = np.asarray(x.tensors[0].data)
        return t[:, 0] if t.ndim == 2 and t.shape[1] == 1 else t
    t, ds = val(root)
    extra = t.ndim - len(ds)
    perm = [ds.index(k) for k in range(d)] + [len(ds) + k for k in range(extra)]
    return np.transpose(t, perm)


def bad_ints(lst):
    return any(abs(v) >= vp.NANV for v in lst)


def full_rec(a, scale=1):
    a = np.asarray(a)
    return {"fmt": "full", "shape": [int(n) for n in a.shape], "data": vp.ints(a, scale)}


WORN = {}


def wear(rng, x, p=0.3):
    """A tree tensor denoting the same array that has been orthogonalised
    before (flags, non-integer node tensors): operations may take other paths.
    It is recorded as the tensor it was made of."""
    if not isinstance(x, tensap.TreeBasedTensor) or rng.rand() >= p or x.tree.nb_nodes == 1:
        return x
    a = dense(x)
    if not np.any(a):
        return x
    try:
        y = x.orth() if rng.rand() < 0.6 else x.orth_at_node(int(x.active_nodes[rng.randint(len(x.active_nodes))]))
        if not np.array_equal(y.ranks, x.ranks) or not np.allclose(dense(y), a, atol=1e-9):
            return x
    except Exception:
        return x
    WORN[id(y)] = (y, dump(x))
    return y


def dump(x, scale=1):
    """Abstract object of a library value."""
    if id(x) in WORN and WORN[id(x)][0] is x:
        return WORN[id(x)][1]
    if isinstance(x, tensap.FullTensor):
        return full_rec(x.data, scale)
    if isinstance(x, tensap.CanonicalTensor):
        if isinstance(x.core, tensap.DiagonalTensor):
            o = {"fmt": "canonical", "core": I(x.core.data),
                 "space": [vp.arr(getattr(a, "data", a) if isinstance(a, tensap.FullTensor) else a) for a in x.space]}
            if scale == 1 and not bad_ints(o["core"]) and not any(bad_ints(s["data"]) for s in o["space"]):
                return o
        return full_rec(dense(x), scale)
    if isinstance(x, tensap.DiagonalTensor):
        o = {"fmt": "diagonal", "data": I(x.data), "order": int(x.order)}
        return o if scale == 1 and not bad_ints(o["data"]) else full_rec(dense(x), scale)
    if isinstance(x, tensap.SparseTensor):
        a = np.asarray(x.indices.array)
        return {"fmt": "sparse", "shape": [int(n) for n in np.atleast_1d(x.shape)],
                "indices": [[int(v) + 1 for v in row] for row in a], "vals": I(np.atleast_1d(x.data), scale)}
    if isinstance(x, tensap.TreeBasedTensor):
        o = dump_tree_tensor(x)
        if scale == 1 and not any(bad_ints(t["data"]) for t in o["nodes"]):
            return o
        return full_rec(dense(x), scale)
    if hasattr(x, "toarray"):
        return full_rec(x.toarray(), scale)
    return full_rec(x, scale)


def dump_tree(t):
    """Abstract dimension tree from its two defining arrays."""
    adj = np.asarray(t.adjacency_matrix)
    n = adj.shape[0]
    parent = []
    for j in range(n):
        p = np.nonzero(adj[:, j])[0]
        parent.append(int(p[0]) + 1 if len(p) == 1 else (0 if len(p) == 0 else -1))
    return {"parent": parent, "ch": [[int(c) + 1 for c in np.nonzero(adj[i])[0]] for i in range(n)],
            "dims": [int(v) for v in np.atleast_1d(t.dim2ind)]}


def dump_tree_tensor(x):
    o = dump_tree(x.tree)
    o["fmt"] = "tree"
    o["act"] = [bool(np.size(t.data) != 0) for t in x.tensors]
    o["nodes"] = [vp.arr(t.data) if np.size(t.data) else {"shape": [0], "data": []} for t in x.tensors]
    return o


def attrs(x):
    """Announced shape and order of a library tensor."""
    if isinstance(x, (tensap.FullTensor, tensap.CanonicalTensor, tensap.DiagonalTensor,
                      tensap.SparseTensor, tensap.TreeBasedTensor)):
        return {"rshape": [int(n) for n in np.atleast_1d(x.shape)], "rorder": int(x.order), "rndim": int(x.ndim)}
    s = [int(n) for n in np.shape(x)]
    return {"rshape": s, "rorder": len(s), "rndim": len(s)}


def attrs_of_dense(a):
    s = [int(n) for n in a.shape]
    return {"rshape": s, "rorder": len(s), "rndim": len(s)}


# ----------------------------------------------------------------- building
def rshape(rng, order, lo=1, hi=3, maxsize=40):
    while True:
        s = [int(v) for v in rng.randint(lo, hi + 1, order)]
        if np.prod(s) <= maxsize:
            return s


def rint(rng, shape, lo=-2, hi=2):
    return rng.randint(lo, hi + 1, shape).astype(float)


def rfull(rng, shape, lo=-3, hi=3):
    a = rint(rng, tuple(shape), lo, hi)
    if rng.rand() < 0.06:
        a = a * 0
    return tensap.FullTensor(a)


def rcanonical(rng, shape, rank=None):
    rank = rank or int(rng.randint(1, 4))
    return tensap.CanonicalTensor([rint(rng, (n, rank)) for n in shape], rint(rng, rank))


def rdiagonal(rng, r, order):
    return tensap.DiagonalTensor(rint(rng, r, -3, 3), order)


def rsparse(rng, shape, nnz=None, lo=-3, hi=3):
    size = int(np.prod(shape))
    if nnz is None:
        nnz = int(rng.randint(1, min(size, 6) + 1))
    pos = rng.permutation(size)[:nnz]
    idx = np.array(np.unravel_index(pos, tuple(shape), order="F")).T.reshape(nnz, len(shape))
    vals = rng.randint(1, hi + 1, nnz) * rng.choice([-1, 1], nnz)
    return tensap.SparseTensor(vals.astype(float), tensap.MultiIndices(idx), np.array(shape))


# dimension trees -----------------------------------------------------------
def tree_from_parent(parent, dims):
    """parent: 1-based parent of each node (0: root); dims: node of each dim."""
    n = len(parent)
    adj = np.zeros((n, n), dtype=int)
    for j, p in enumerate(parent):
        if p:
            adj[p - 1, j] = 1
    return tensap.DimensionTree(np.array(dims), adj)


def rtree_struct(rng, order, relabel=True, maxch=3):
    """Random rooted tree with `order` leaves whose internal nodes have at
    least two children; returns (parent, dims)."""
    if order == 1:
        return [0], [1]
    groups = [[("leaf", d)] for d in rng.permutation(order)]
    items = [("leaf", int(d)) for d in rng.permutation(order)]
    while len(items) > 1:
        k = int(min(len(items), rng.randint(2, maxch + 1)))
        if rng.rand() < 0.15:
            k = len(items)
        pick = list(rng.permutation(len(items))[:k])
        new = ("node", [items[p] for p in pick])
        items = [it for q, it in enumerate(items) if q not in pick] + [new]
    parent, dims = [], [0] * order

    def walk(it, p):
        parent.append(p)
        me = len(parent)
        if it[0] == "leaf":
            dims[it[1]] = me
        else:
            for c in it[1]:
                walk(c, me)

    walk(items[0], 0)
    n = len(parent)
    if relabel and rng.rand() < 0.6:
        sig = rng.permutation(n) + 1  # node a -> sig[a-1]
        newp = [0] * n
        for a in range(n):
            newp[sig[a] - 1] = int(sig[parent[a] - 1]) if parent[a] else 0
        parent = newp
        dims = [int(sig[v - 1]) for v in dims]
    return parent, dims


def rtree(rng, order, relabel=True):
    k = rng.randint(5)
    if order >= 2 and k == 0:
        return tensap.DimensionTree.linear(order)
    if order >= 2 and k == 1:
        return tensap.DimensionTree.trivial(order)
    if order >= 2 and k == 2:
        return tensap.DimensionTree.balanced(order)
    return tree_from_parent(*rtree_struct(rng, order, relabel))


def ractive(rng, tree):
    n = tree.nb_nodes
    act = np.full(n, True)
    k = rng.randint(4)
    if k == 0:
        return act
    if k == 1:
        act[np.asarray(tree.is_leaf)] = False
    else:
        for v in tree.dim2ind:
            if rng.rand() < 0.5:
                act[v - 1] = False
    if n == 1:
        act[:] = True
    return act


def rtreetensor(rng, tree, shape, act=None, rmax=2, root_rank=1, ranks=None, lo=-2, hi=2):
    if tree.nb_nodes == 1:
        return tensap.TreeBasedTensor([tensap.FullTensor(rint(rng, (shape[0],), lo, hi))], tree)
    if act is None:
        act = ractive(rng, tree)
    if ranks is None:
        ranks = rng.randint(1, rmax + 1, tree.nb_nodes)
    ranks = np.array(ranks)
    ranks[tree.root - 1] = root_rank
    return tensap.TreeBasedTensor.create(lambda s: rint(rng, tuple(s), lo, hi), tree, ranks, np.array(shape), act)


def random_obj(rng, fmt, shape=None, order=None):
    order = order or int(rng.choice([1, 2, 2, 3, 3, 4]))
    if fmt == "diagonal":
        return rdiagonal(rng, int(rng.randint(1, 4)) if order < 4 else int(rng.randint(1, 3)), order)
    shape = shape or rshape(rng, order)
    if fmt == "full":
        return rfull(rng, shape)
    if fmt == "canonical":
        return rcanonical(rng, shape)
    if fmt == "sparse":
        return rsparse(rng, shape)
    if fmt == "tree":
        return rtreetensor(rng, rtree(rng, len(shape)), shape)
    raise ValueError(fmt)


# ------------------------------------------------- parts of tree tensors
def node_frame(x, a):
    """Matrix of the functions u_k represented by node a (rows: the entries of
    the dimensions below a in increasing order, first fastest), the dims."""
    adj = np.asarray(x.tree.adjacency_matrix)
    d2i = [int(v) for v in x.tree.dim2ind]

    def val(b):
        ch = [int(c) for c in np.nonzero(adj[b])[0]]
        t = np.asarray(x.tensors[b].data)
        if not ch:
            return t.reshape(t.shape[0], -1), [d2i.index(b + 1)]
        lab, out, rest = [], [], []
        for c in ch:
            if np.size(x.tensors[c].data) == 0:
                dim = d2i.index(c + 1)
                lab.append(dim)
                out.append(dim)
            else:
                v, ds = val(c)
                lab.append(20 + c)
                rest += [v, ds + [20 + c]]
                out += ds
        if t.ndim == len(ch):
            t = t[..., None]
        return np.einsum(t, lab + [19], *rest, out + [19]), out

    t, ds = val(a - 1)
    srt = sorted(ds)
    t = np.transpose(t, [ds.index(k) for k in srt] + [len(ds)])
    return t.reshape(-1, t.shape[-1], order="F"), srt


def above_frame(x, a):
    """Matrix of the functions w_k: x = sum_k u_k w_k; rows: the entries of the
    other dimensions (increasing), then the root rank if larger than one."""
    adj = np.asarray(x.tree.adjacency_matrix)
    d2i = [int(v) for v in x.tree.dim2ind]
    root = int(x.tree.root) - 1

    def val(b):
        if b == a - 1:
            r = np.asarray(x.tensors[b].data).shape[-1]
            return np.eye(r), [18]
        ch = [int(c) for c in np.nonzero(adj[b])[0]]
        t = np.asarray(x.tensors[b].data)
        if not ch:
            return t, [d2i.index(b + 1)]
        lab, out, rest = [], [], []
        for c in ch:
            if np.size(x.tensors[c].data) == 0:
                dim = d2i.index(c + 1)
                lab.append(dim)
                out.append(dim)
            else:
                v, ds = val(c)
                lab.append(20 + c)
                rest += [v, ds + [20 + c]]
                out += ds
        if b == root and t.ndim == len(ch):
            t = t[..., None]
        return np.einsum(t, lab + [19], *rest, out + [19]), out

    t, ds = val(root)
    srt = sorted(k for k in ds if k != 18)
    t = np.transpose(t, [ds.index(k) for k in srt] + [len(ds), ds.index(18)])
    return t.reshape(-1, t.shape[-1], order="F")


def node_gram(x, b):
    """Gram matrix of the columns of the node's tensor along its rank mode."""
    t = np.asarray(x.tensors[b - 1].data)
    m = t.reshape(-1, t.shape[-1], order="F")
    return m.T @ m
