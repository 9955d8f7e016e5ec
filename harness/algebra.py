"""Operation instances of the tensor algebra, per format: each generator
returns (fields, thunk, outproj) or None when not applicable to the operands."""

import numpy as np
import tensap

import formats as F
import vp

NAMES = {tensap.FullTensor: "full", tensap.CanonicalTensor: "canonical", tensap.DiagonalTensor: "diagonal",
         tensap.SparseTensor: "sparse", tensap.TreeBasedTensor: "tree"}


def fmt_of(x):
    return NAMES.get(type(x))


def shape_of(x):
    return [int(n) for n in np.atleast_1d(x.shape)]


def order_of(x):
    return int(x.order)


def same_kind(rng, x, shape=None):
    """A random object of the format of x and of the same (or given) shape."""
    f = fmt_of(x)
    s = shape or shape_of(x)
    if f == "diagonal":
        return F.rdiagonal(rng, s[0], order_of(x))
    if f == "tree":
        act = None if rng.rand() < 0.4 else np.array(x.is_active_node)
        tree = x.tree
        if rng.rand() < 0.3 and tree.nb_nodes > 1:
            # the same dimension tree with other node numbers
            d = F.dump_tree(tree)
            n = len(d["parent"])
            sig = rng.permutation(n) + 1
            par, a2 = [0] * n, np.full(n, True)
            for a in range(n):
                par[sig[a] - 1] = int(sig[d["parent"][a] - 1]) if d["parent"][a] else 0
                a2[sig[a] - 1] = x.is_active_node[a]
            tree = F.tree_from_parent(par, [int(sig[v - 1]) for v in d["dims"]])
            act = None if act is None else a2
        return F.rtreetensor(rng, tree, s, act=act, root_rank=int(x.ranks[x.tree.root - 1]))
    return F.random_obj(rng, f, s)


def subset(rng, n, lo=1, hi=None, sort=None):
    k = int(rng.randint(lo, (hi or n) + 1))
    d = [int(v) for v in rng.permutation(n)[:k]]
    if sort or (sort is None and rng.rand() < 0.6):
        d = sorted(d)
    return d


def dims_arg(rng, dims):
    """The same modes in the various spellings the library accepts."""
    k = rng.randint(3)
    if len(dims) == 1 and k == 0:
        return dims[0]
    return list(dims) if k == 1 else np.array(dims)


def mat(rng, m, n):
    return F.rint(rng, (m, n), -2, 2)


def M(a):
    return vp.arr(a)


def scalar_out(v):
    a = v.data if isinstance(v, tensap.FullTensor) else (v.toarray() if hasattr(v, "toarray") else v)
    a = np.asarray(a)
    if a.size == 1:
        a = a.reshape(())
    return {"out": F.full_rec(a), "att": F.attrs_of_dense(a)}


def std_out(v):
    if v is None:
        raise TypeError("returned None")
    return {"out": F.dump(v), "att": F.attrs(v)}


# each entry: op family -> generator(rng, x) -> list of (op, fields, thunk, out)
def g_binary(rng, x):
    f = fmt_of(x)
    y = same_kind(rng, x)
    ops = {"full": ["add", "sub", "hadamard"], "canonical": ["add", "sub"],
           "diagonal": ["add", "sub", "hadamard"], "sparse": ["add", "hadamard"],
           "tree": ["add", "sub", "hadamard"]}[f]
    op = ops[rng.randint(len(ops))]
    th = {"add": lambda: x + y, "sub": lambda: x - y, "hadamard": lambda: x * y}[op]
    if op == "hadamard" and hasattr(x, "hadamard_product") and rng.rand() < 0.4:
        th = lambda: x.hadamard_product(y)  # noqa
    if f == "full" and rng.rand() < 0.2:
        q = rng.choice([-4, -2, -1, 1, 2, 4], shape_of(x)).astype(float)
        z = tensap.FullTensor(q)
        return "over", {"c": 1}, (lambda: x / z) if rng.rand() < 0.6 else (lambda: x / q), lambda v: {"out": F.full_rec(F.dense(v) * q), "att": F.attrs(v)}
    if f == "full" and rng.rand() < 0.3:
        if op == "add":
            th = lambda: x + y.data  # noqa
        elif op == "sub":
            th = lambda: x - y.data  # noqa
        else:
            th = lambda: x * y.data  # noqa
    return op, {"y": F.dump(y)}, th, std_out


def g_unary(rng, x):
    f = fmt_of(x)
    if f == "sparse":
        return None
    c = int(rng.choice([-2, -1, 0, 2, 3]))
    cand = [("neg", {}, lambda: -x)]
    if f in ("full", "tree"):
        cand += [("scale", {"c": c}, lambda: x * c), ("scale", {"c": c}, lambda: c * x),
                 ("scale", {"c": c}, lambda: x * float(c))]
    if f == "full":
        cand += [("addc", {"c": c}, lambda: x + c), ("addc", {"c": c}, lambda: c + x),
                 ("addc", {"c": -c}, lambda: x - c), ("rsubc", {"c": c}, lambda: c - x),
                 ("power", {"c": abs(c)}, lambda: x ** abs(c))]
    if f in ("full", "tree"):
        d = int(rng.choice([-2, 2, 4]))
        cand += [("over", {"c": d}, lambda: x / d)]
    op, fields, th = cand[rng.randint(len(cand))]
    if op == "over":
        return op, fields, th, lambda v: {"out": F.full_rec(F.dense(v) * fields["c"]), "att": F.attrs(v)}
    return op, fields, th, std_out


def g_shape(rng, x):
    f = fmt_of(x)
    d = order_of(x)
    s = shape_of(x)
    cand = []
    if f in ("full", "sparse", "diagonal"):
        p = [int(v) for v in rng.permutation(d)]
        q = p if rng.rand() < 0.5 else np.array(p)
        cand.append(("transpose", {"modes": [v + 1 for v in p]}, lambda: x.transpose(q)))
        cand.append(("itranspose", {"modes": [v + 1 for v in p]}, lambda: x.itranspose(q)))
    if f in ("full", "sparse"):
        size = int(np.prod(s))
        fac = []
        rest = size
        for _ in range(int(rng.randint(1, 4)) - 1):
            divs = [v for v in range(1, rest + 1) if rest % v == 0]
            v = int(rng.choice(divs))
            fac.append(v)
            rest //= v
        fac.append(rest)
        cand.append(("reshape", {"shape": fac}, lambda: x.reshape(fac)))
    if f in ("full", "canonical", "tree"):
        ones = [k for k in range(d) if s[k] == 1]
        if ones:
            cand.append(("squeezeall", {}, lambda: x.squeeze()))
            pick = subset(rng, len(ones))
            dims = [ones[k] for k in pick]
            da = dims_arg(rng, dims)
            cand.append(("squeeze", {"modes": [v + 1 for v in dims]}, lambda: x.squeeze(da)))
        else:
            cand.append(("squeezeall", {}, lambda: x.squeeze()))
    if not cand:
        return None
    op, fields, th = cand[rng.randint(len(cand))]
    return op, fields, th, (lambda v: std_out(v)) if op[:7] != "squeeze" else sq_out


def sq_out(v):
    if isinstance(v, (tensap.FullTensor, tensap.CanonicalTensor, tensap.TreeBasedTensor, tensap.SparseTensor)):
        return std_out(v)
    a = np.asarray(v)
    return {"out": F.full_rec(a), "att": F.attrs_of_dense(a)}


def g_sub(rng, x):
    f = fmt_of(x)
    if f not in ("full", "diagonal", "tree"):
        return None
    s = shape_of(x)
    args, sel = [], []
    for n in s:
        k = rng.randint(4)
        if k == 0:
            args.append(":" if f != "tree" else np.arange(n))
            sel.append(list(range(1, n + 1)))
        elif k == 1:
            v = int(rng.randint(n))
            args.append(v)
            sel.append([v + 1])
        else:
            v = [int(t) for t in rng.randint(0, n, rng.randint(1, 4))]
            args.append(v if rng.rand() < 0.5 else np.array(v))
            sel.append([t + 1 for t in v])
    return "subtensor", {"sel": sel}, lambda: x.sub_tensor(*args), std_out


def g_reduce(rng, x):
    f = fmt_of(x)
    if f not in ("full", "canonical", "tree"):
        return None
    d = order_of(x)
    dims = subset(rng, d)
    allm = rng.rand() < 0.2
    if allm:
        dims = list(range(d))
    if f == "full":
        a = None if allm else (dims[0] if len(dims) == 1 and rng.rand() < 0.7 else [tuple, list, np.array][rng.randint(3)](dims))
        if rng.rand() < 0.4:
            cnt = int(np.prod([shape_of(x)[k] for k in dims]))
            return ("sumkeep", {"modes": [v + 1 for v in dims]}, lambda: x.reduce_mean(a),
                    lambda v: {"out": F.full_rec(v.data * cnt), "att": F.attrs(v)})
        return "sumkeep", {"modes": [v + 1 for v in dims]}, lambda: x.reduce_sum(a), std_out
    a = None if allm else dims_arg(rng, dims)
    return "sumdrop", {"modes": [v + 1 for v in dims]}, lambda: x.reduce_sum(a), sq_out


def g_tvp(rng, x):
    f = fmt_of(x)
    d = order_of(x)
    s = shape_of(x)
    if f == "diagonal":
        k = int(rng.randint(1, d + 1))
        vecs = [F.rint(rng, s[0]) for _ in range(k)]
        fields = {"modes": list(range(1, k + 1)), "vecs": [vp.ints(v) for v in vecs]}
        if rng.rand() < 0.5:
            a = np.stack(vecs, axis=1)
            return "tvp", fields, lambda: x.tensor_vector_product(a), sq_out_diag
        return "tvp", fields, lambda: x.tensor_vector_product(list(vecs)), sq_out_diag
    full = rng.rand() < 0.25
    dims = list(range(d)) if full else subset(rng, d)
    vecs = [F.rint(rng, s[k]) for k in dims]
    fields = {"modes": [v + 1 for v in dims], "vecs": [vp.ints(v) for v in vecs]}
    if full:
        th = lambda: x.tensor_vector_product(vecs)  # noqa
    elif len(dims) == 1 and rng.rand() < 0.5:
        th = lambda: x.tensor_vector_product(vecs[0], dims[0] if f != "sparse" else np.array(dims))  # noqa
        if f == "sparse":
            th = lambda: x.tensor_vector_product(vecs, np.array(dims))  # noqa
    else:
        da = np.array(dims) if f == "sparse" else dims_arg(rng, dims)
        th = lambda: x.tensor_vector_product(vecs, da)  # noqa
    out = scalar_out if len(dims) == d else std_out
    return "tvp", fields, th, out


def sq_out_diag(v):
    if isinstance(v, tensap.DiagonalTensor):
        return std_out(v)
    return scalar_out(v)


def g_tmp(rng, x):
    f = fmt_of(x)
    d = order_of(x)
    s = shape_of(x)
    full = rng.rand() < 0.3
    dims = list(range(d)) if full else subset(rng, d)
    mats = [mat(rng, int(rng.randint(1, 4)), s[k]) for k in dims]
    fields = {"modes": [v + 1 for v in dims], "mats": [M(a) for a in mats]}
    if full:
        th = lambda: x.tensor_matrix_product(mats)  # noqa
    elif len(dims) == 1 and rng.rand() < 0.5:
        th = lambda: x.tensor_matrix_product(mats[0], dims[0])  # noqa
    else:
        da = dims_arg(rng, dims)
        th = lambda: x.tensor_matrix_product(mats, da)  # noqa
    return "tmp", fields, th, std_out


def g_tdmp(rng, x):
    f = fmt_of(x)
    if f == "canonical":
        return None
    d = order_of(x)
    s = shape_of(x)
    if f == "diagonal":
        k = d
        vecs = [F.rint(rng, s[0]) for _ in range(k)]
        a = np.stack(vecs, axis=1) if rng.rand() < 0.5 else list(vecs)
        return ("tdmp", {"modes": list(range(1, k + 1)), "vecs": [vp.ints(v) for v in vecs]},
                lambda: x.tensor_diagonal_matrix_product(a), std_out)
    full = rng.rand() < 0.4
    dims = list(range(d)) if full else subset(rng, d)
    vecs = [F.rint(rng, s[k]) for k in dims]
    fields = {"modes": [v + 1 for v in dims], "vecs": [vp.ints(v) for v in vecs]}
    if full:
        th = lambda: x.tensor_diagonal_matrix_product(vecs)  # noqa
    else:
        th = lambda: x.tensor_diagonal_matrix_product(vecs, dims)  # noqa
    return "tdmp", fields, th, std_out


def g_tmpdiag(rng, x):
    f = fmt_of(x)
    d = order_of(x)
    s = shape_of(x)
    npts = int(rng.randint(1, 4))
    full = f in ("sparse", "tree") or d == 1 or rng.rand() < 0.5
    dims = list(range(d)) if full else subset(rng, d, lo=2 if f != "full" else 1)
    mats = [mat(rng, npts, s[k]) for k in dims]
    fields = {"modes": [v + 1 for v in dims], "mats": [M(a) for a in mats]}
    op = "tmpdiag"
    if full:
        th = lambda: x.tensor_matrix_product_eval_diag(mats)  # noqa
    else:
        da = dims_arg(rng, dims)
        th = lambda: x.tensor_matrix_product_eval_diag(mats, da)  # noqa
        if f == "full":
            op = "tmpdiagfirst"
    return op, fields, th, std_out


def g_kron(rng, x):
    f = fmt_of(x)
    if f not in ("full", "diagonal", "tree"):
        return None
    d = order_of(x)
    s = shape_of(x)
    if f == "diagonal":
        y = F.rdiagonal(rng, int(rng.randint(1, 3)), d)
    elif f == "full":
        d2 = d if rng.rand() < 0.6 else int(rng.randint(1, 4))
        y = F.rfull(rng, F.rshape(rng, d2, 1, 2))
    else:
        y = F.rtreetensor(rng, x.tree, F.rshape(rng, d, 1, 2), act=None if rng.rand() < 0.4 else np.array(x.is_active_node))
    if np.prod(s) * np.prod(shape_of(y)) > 150:
        return None
    return "kron", {"y": F.dump(y)}, lambda: x.kron(y), std_out


def g_cat(rng, x):
    f = fmt_of(x)
    if f not in ("full", "diagonal", "tree"):
        return None
    d = order_of(x)
    s = shape_of(x)
    modes = list(range(d))
    if f == "diagonal":
        y = F.rdiagonal(rng, int(rng.randint(1, 3)), d)
        th = lambda: x.cat(y)  # noqa
    elif f == "full":
        if rng.rand() < 0.5:
            modes = subset(rng, d)
        s2 = [int(rng.randint(1, 3)) if k in modes else s[k] for k in range(d)]
        y = F.rfull(rng, s2)
        if len(modes) == d and rng.rand() < 0.5:
            modes = list(range(d))
            th = lambda: x.cat(y)  # noqa
        else:
            da = dims_arg(rng, modes)
            th = lambda: x.cat(y, da)  # noqa
    else:
        if int(x.ranks[x.tree.root - 1]) > 1:
            return None
        y = F.rtreetensor(rng, x.tree, F.rshape(rng, d, 1, 2), act=None if rng.rand() < 0.4 else np.array(x.is_active_node))
        th = lambda: x.cat(y)  # noqa
    return "cat", {"y": F.dump(y), "modes": [k + 1 for k in modes]}, th, std_out


def g_contract(rng, x):
    f = fmt_of(x)
    if f not in ("full", "diagonal"):
        return None
    d = order_of(x)
    s = shape_of(x)
    k = int(rng.randint(0, d + 1))
    p = [int(v) for v in rng.permutation(d)[:k]]
    d2 = int(rng.randint(max(1, k), 4)) if k < 4 else k
    if f == "diagonal":
        y = F.rdiagonal(rng, s[0], d2)
        q = [int(v) for v in rng.permutation(d2)[:k]]
    else:
        q = [int(v) for v in rng.permutation(d2)[:k]]
        s2 = [int(v) for v in rng.randint(1, 3, d2)]
        for a, b in zip(p, q):
            s2[b] = s[a]
        y = F.rfull(rng, s2)
    if np.prod(s) * np.prod(shape_of(y)) > 250:
        return None
    if k == 0:
        th = lambda: x.tensordot(y, 0)  # noqa
    elif k == 1 and rng.rand() < 0.5:
        th = lambda: x.tensordot(y, p[0], q[0])  # noqa
    else:
        th = lambda: x.tensordot(y, p, q)  # noqa
    return ("contract", {"y": F.dump(y), "p": [v + 1 for v in p], "q": [v + 1 for v in q]}, th,
            sq_out if k < d + d2 else scalar_out)


def g_einsum(rng, x):
    if fmt_of(x) != "full":
        return None
    d = order_of(x)
    s = shape_of(x)
    d2 = int(rng.randint(1, 4))
    many = bool(rng.rand() < 0.4)
    perm1 = [int(v) for v in rng.permutation(d)]
    perm2 = [int(v) for v in rng.permutation(d2)]
    k = int(rng.randint(0, min(d, d2)))  # contracted pairs
    p, q = perm1[:k], perm2[:k]
    rest1, rest2 = perm1[k:], perm2[k:]
    s2 = [int(v) for v in rng.randint(1, 3, d2)]
    for a, b in zip(p, q):
        s2[b] = s[a]
    if many:
        n = int(rng.randint(0, min(len(rest1), len(rest2)) + 1))
        pd, qd = rest1[:n], rest2[:n]
        for a, b in zip(pd, qd):
            s2[b] = s[a]
    else:
        pd = [rest1[0]] + [v for v in rest1[1:] if s[v] == s[rest1[0]] and rng.rand() < 0.5]
        qd = rest2[:int(rng.randint(1, len(rest2) + 1))]
        for b in qd:
            s2[b] = s[pd[0]]
    y = F.rfull(rng, s2)
    if np.prod(s) * np.prod(s2) > 200:
        return None
    fields = {"y": F.dump(y), "p": [v + 1 for v in p], "q": [v + 1 for v in q],
              "pd": [v + 1 for v in pd], "qd": [v + 1 for v in qd], "many": many}
    if k == 0 and rng.rand() < 0.6:
        return "einsum", fields, lambda: x.outer_product_eval_diag(y, pd, qd, many), std_out
    return "einsum", fields, lambda: x.tensordot_eval_diag(y, p, q, pd, qd, many), std_out


def g_matricize(rng, x):
    if fmt_of(x) != "full":
        return None
    d = order_of(x)
    perm = [int(v) for v in rng.permutation(d)]
    k = int(rng.randint(1, d + 1))
    p = perm[:k]
    if rng.rand() < 0.5:
        q = sorted(perm[k:])
        th = lambda: x.matricize(dims_arg(np.random, p))  # noqa
    else:
        q = perm[k:]
        th = lambda: x.matricize(p, q)  # noqa
        if not q:
            return None
    return "matricize", {"p": [v + 1 for v in p], "q": [v + 1 for v in q]}, th, std_out


def g_except(rng, x):
    f = fmt_of(x)
    if f not in ("full", "diagonal", "tree") or (f == "tree" and int(x.ranks[x.tree.root - 1]) > 1):
        return None
    d = order_of(x)
    s = shape_of(x)
    if d == 1:
        return None
    dim = int(rng.randint(d))
    if f == "full":
        s2 = F.rshape(rng, d, 1, 3)
        y = F.rfull(rng, s2)
    elif f == "tree":
        s2 = F.rshape(rng, d, 1, 3)
        y = F.rtreetensor(rng, x.tree, s2)
    else:
        r2 = int(rng.randint(1, 4))
        y = F.rdiagonal(rng, r2, d)
        s2 = [r2] * d
    mats = [mat(rng, s[k], s2[k]) for k in range(d)]
    modes = [k for k in range(d) if k != dim]
    if np.prod(s) * np.prod(s2) > 700:
        return None
    fields = {"y": F.dump(y), "mats": [M(mats[k]) for k in modes], "modes": [k + 1 for k in modes]}
    return "contractexcept", fields, lambda: x.tensordot_matrix_product_except_dim(y, mats, dim), std_out


def g_rootmap(rng, x):
    if fmt_of(x) != "tree":
        return None
    r = int(x.ranks[x.tree.root - 1])
    if r <= 1:
        return None
    A = mat(rng, int(rng.randint(1, 4)), r)
    return "rootmap", {"mat": M(A)}, lambda: A * x if False else x.__rmul__(A), std_out


GENS = [g_binary, g_binary, g_unary, g_shape, g_sub, g_reduce, g_tvp, g_tmp, g_tdmp, g_tmpdiag, g_kron, g_cat,
        g_contract, g_einsum, g_matricize, g_except, g_rootmap]
