"""C22: least-squares learning solves its problem and estimates its error."""
import itertools
from copy import deepcopy
from fractions import Fraction as F

import numpy as np
import tensap

import vp

TOP = 2 ** 31 - 1


class Big(Exception):
    """A number the specification cannot handle (the case is not judged)."""


def chk(x, lim=20000):
    if abs(x.numerator) > lim or x.denominator > lim:
        raise Big
    return x


def add(v):
    s = F(0)
    for x in v:
        s2 = s + x
        if max(abs(s.numerator) * x.denominator, abs(x.numerator) * s.denominator, s.denominator * x.denominator) > TOP:
            raise Big
        s = s2
    return s


def solve(A, y, ridge=F(0)):
    """Exact solution of the normal equations (Gauss)."""
    p = len(A[0])
    g = [[sum(F(r[i]) * r[j] for r in A) + (ridge if i == j else 0) for j in range(p)] + [sum(F(r[i]) * z for r, z in zip(A, y))] for i in range(p)]
    for k in range(p):
        piv = next((i for i in range(k, p) if g[i][k]), None)
        if piv is None:
            raise Big
        g[k], g[piv] = g[piv], g[k]
        g[k] = [x / g[k][k] for x in g[k]]
        for i in range(p):
            if i != k:
                g[i] = [a - g[i][k] * b for a, b in zip(g[i], g[k])]
    return [chk(g[i][p]) for i in range(p)]


def res(A, y, x, rows):
    return [chk(F(y[i]) - add([a * b for a, b in zip(A[i], x)])) for i in rows]


def msq(v):
    return add([x * x for x in v]) / len(v)


def judge_cv(A, y, est, nf, corr, H):
    """Raise Big unless the estimates of A, y have small exact values."""
    n, p = len(A), len(A[0])
    if est == "leave_out":
        nf = n
    solve(A, y)
    if n - 1 < p or (est == "k_fold" and n * (nf - 1) < p * nf):
        return None
    sm = F(sum(z * z for z in y), n)
    if sm == 0:
        raise Big
    g = [[F(sum(r[i] * r[j] for r in A)) for j in range(p)] for i in range(p)]
    fac = 1 / sm
    if corr and n != p:
        inv = [solve_sq(g, [F(int(i == j)) for i in range(p)]) for j in range(p)]
        fac *= F(n, n - p) * (1 + sum(inv[j][i] * H[j][i] for i in range(p) for j in range(p)))
    sizes = {n // nf, -(-n // nf)}
    d, errs = None, None
    for k in sizes:
        for S in itertools.combinations(range(n), k):
            rest = [i for i in range(n) if i not in S]
            if len(rest) < p:
                raise Big
            d = res(A, y, solve([A[i] for i in rest], [y[i] for i in rest]), S)
            msq(d)
    if nf == n:
        d = [res(A, y, solve([A[j] for j in range(n) if j != i], [y[j] for j in range(n) if j != i]), [i])[0] for i in range(n)]
        return mul(msq(d), fac)
    if n > 6:
        raise Big
    for folds in partitions(tuple(range(n)), nf):
        v = []
        for S in folds:
            rest = [i for i in range(n) if i not in S]
            v.append(msq(res(A, y, solve([A[i] for i in rest], [y[i] for i in rest]), S)))
        mul(add(v) / nf, fac)
    return None


def mul(a, b):
    if max(abs(a.numerator), abs(b.numerator), a.denominator, b.denominator, abs((a * b).numerator), (a * b).denominator) > TOP:
        raise Big
    return a * b


def partitions(elems, nf):
    """Balanced partitions into nf folds."""
    if nf == 0:
        if not elems:
            yield []
        return
    for k in {len(elems) // nf, -(-len(elems) // nf)}:
        if k:
            for S in itertools.combinations(elems[1:], k - 1):
                S = (elems[0],) + S
                for rest in partitions(tuple(e for e in elems if e not in S), nf - 1):
                    yield [S] + rest


def solve_sq(g, b):
    p = len(b)
    g = [list(g[i]) + [b[i]] for i in range(p)]
    for k in range(p):
        piv = next((i for i in range(k, p) if g[i][k]), None)
        if piv is None:
            raise Big
        g[k], g[piv] = g[piv], g[k]
        g[k] = [x / g[k][k] for x in g[k]]
        for i in range(p):
            if i != k:
                g[i] = [a - g[i][k] * b for a, b in zip(g[i], g[k])]
    return [g[i][p] for i in range(p)]


def judge_path(A, y, cands, est, nf, corr, H, stop):
    errs, xs = [], []
    for c in cands:
        q = [j for j in range(len(c)) if c[j]]
        if not q or len(q) > len(A):
            continue
        Hq = [[H[i][j] for j in q] for i in q]
        e = judge_cv([[r[j] for j in q] for r in A], y, est, nf, corr, Hq)
        if stop and errs and e is not None and errs[-1] is not None and e == 4 * errs[-1]:
            raise Big
        errs.append(e)
        for a in errs:
            if a is not None and e is not None and max(a.numerator * e.denominator, e.numerator * a.denominator, a.denominator * e.denominator) * 4 > TOP:
                raise Big
        xs.append([F(0)] * len(c))
        for j, t in zip(q, solve([[r[j] for j in q] for r in A], y)):
            xs[-1][j] = t
    return xs


def rat(x):
    return [1, 0] if np.isposinf(x) else vp.rat(x)


def sqe(x):
    """A squared error, as exact rational and as fixed-point number."""
    return [1, 0, 0] if np.isposinf(x) else vp.rat(x, 20000) + [vp.fix(x, 10000)]


def sq(x):
    return sqe(float(x) ** 2)


def rats(v):
    return [rat(x) for x in np.ravel(np.asarray(v, dtype=float))]


def L(a):
    return [[int(x) for x in r] for r in a]


class Problem:
    """Four data sets of one solver life, of a common number of functions."""

    def __init__(self, rng, kinds):
        self.P = int(rng.choice([1, 2, 2, 3]))
        self.sets = []
        for k in range(4):
            N = int(rng.randint(max(2, self.P), 7)) if rng.rand() < 0.9 else int(rng.randint(1, 3))
            lo = int(rng.choice([1, 1, 2]))
            if rng.rand() < 0.5:
                A = rng.choice([-1, 1], (N, self.P))
            else:
                A = rng.randint(-lo, lo + 1, (N, self.P))
            if rng.rand() < 0.4:
                A[:, 0] = 1
            x = rng.randint(-1, 3, N)
            A3 = rng.choice([-1, 0, 1], (N, self.P, 2))
            ys = rng.randint(-3, 4, (N, 2))
            Nt = int(rng.randint(1, 4))
            self.sets.append({"N": N, "A": A, "x": x, "A3": A3, "y": ys, "sw": rng.choice([1, 1, 2, 3], N),
                              "At": rng.randint(-2, 3, (Nt, self.P)), "xt": rng.randint(-1, 3, Nt), "At3": rng.randint(-1, 2, (Nt, self.P, 2)),
                              "yt": rng.randint(-3, 4, (Nt, 2)), "nf": int(rng.choice([2, 3, N])), "al": [[0, 1], [1, 2], [1, 1], [1, 4]][rng.randint(4)],
                              "perm": rng.permutation(6)})
        G = rng.randint(-1, 2, (self.P, self.P))
        self.H = (G.T @ G + np.eye(self.P)).astype(int)
        m = int(rng.randint(1, 5))
        self.path = (rng.rand(self.P, m) < 0.6) if rng.rand() < 0.6 else None
        if self.P > 1 and rng.rand() < 0.5:
            # outputs explained by one function mostly, met again and again along the path by candidates without it
            j, k = [int(v) for v in rng.permutation(self.P)[:2]]
            for d in self.sets:
                if rng.rand() < 0.7:
                    d["y"][:, 0] = int(rng.choice([-3, 3])) * d["A"][:, j]
                    d["y"][int(rng.randint(d["N"])), 0] += 1
            cands = [np.arange(self.P) == j, np.isin(np.arange(self.P), [j, k]), np.arange(self.P) == k, np.full(self.P, True)]
            self.path = np.stack([cands[v] for v in ([0, 1, 2, 3] if rng.rand() < 0.6 else rng.permutation(4))], axis=1)
        self.blocks = [[int(rng.randint(self.P))]] if rng.rand() < 0.6 or self.P < 2 else [[0], [1, self.P - 1]]


def vander(x, P):
    return np.stack([np.asarray(x) ** k for k in range(P)], axis=1)


def step(ctx, pb, s, c, fresh):
    """Configure the solver s as in c, solve, record if the case can be judged."""
    d = pb.sets[c["data"] - 1]
    P, N = pb.P, d["N"]
    y = d["y"].astype(float) if c["outs"] == 2 else d["y"][:, 0].astype(float)
    if c["outs"] == 1 and d["nf"] == 2:
        y = y[:, None] if c["src"] == "matrix" and c["mode"] != "l2" and d["al"][0] == 0 else y
    yt = d["yt"].astype(float) if c["outs"] == 2 else d["yt"][:, 0].astype(float)
    A3 = d["A3"][:, :, :c["outs"]]
    s.basis, s.basis_eval, s.basis_eval_test = None, None, None
    if c["src"] == "basis":
        s.basis = tensap.PolynomialFunctionalBasis(tensap.CanonicalPolynomials(), range(P))
        s.training_data = [d["x"].astype(float), y]
        s.test_data = [d["xt"].astype(float), yt]
        A, At = vander(d["x"], P), vander(d["xt"], P)
    elif c["src"] == "stack":
        s.basis_eval = A3.astype(float)
        s.basis_eval_test = d["At3"][:, :, :c["outs"]].astype(float)
        s.training_data = [None, y]
        s.test_data = [None, yt]
        A = np.concatenate([A3[:, :, k] for k in range(c["outs"])], axis=0)
        At = np.concatenate([d["At3"][:, :, k] for k in range(c["outs"])], axis=0)
    else:
        s.basis_eval, s.basis_eval_test = d["A"].astype(float), d["At"].astype(float)
        s.training_data, s.test_data = [None, y], [None, yt]
        A, At = d["A"], d["At"]
    if c["src"] == "stack":
        outs = [d["y"][:, :c["outs"]].ravel(order="F")]
        touts = [d["yt"][:, :c["outs"]].ravel(order="F")]
        sw = np.tile(d["sw"], c["outs"])
    else:
        outs = [d["y"][:, k] for k in range(c["outs"])]
        touts = [d["yt"][:, k] for k in range(c["outs"])]
        sw = d["sw"]
    mode = c["mode"]
    s.weights = d["sw"].astype(float) ** 2 if c["wgt"] else None
    if not c["wgt"]:
        sw = np.ones(A.shape[0], dtype=int)
    s.linear_solver = c["lin"]
    s.basis_adaptation = mode == "adapt"
    s.basis_adaptation_path = pb.path if mode == "adapt" else None
    s.regularization = mode in ("l0", "l1", "l2")
    s.regularization_type = mode if s.regularization else "l1"
    s.regularization_options = {"alpha": d["al"][0] / d["al"][1]}
    s.model_selection = c["sel"]
    s.model_selection_options = {"stop_if_error_increase": c["stop"]}
    est = c["est"]
    s.error_estimation = est != "none"
    selects = mode == "adapt" or (mode in ("l0", "l1") and c["sel"])
    est = "leave_out" if est == "none" and selects else est
    if selects and est == "residuals":
        est = "leave_out"
    s.error_estimation_type = est if est != "none" else "leave_out"
    s.error_estimation_options = {"correction": c["corr"]}
    nf = min(d["nf"], A.shape[0])
    if est == "k_fold":
        if d["perm"][0] < 5:
            s.error_estimation_options["number_of_folds"] = d["nf"]
        else:
            nf = min(10, A.shape[0])
    if c["gram"]:
        s.error_estimation_options["gram_matrix"] = pb.H.astype(float)
    H = L(pb.H) if c["gram"] else L(np.eye(P))
    blocks = pb.blocks if c["blocks"] and mode in ("l0", "l1") and selects else []
    s.options = {"non_zero_blocks": [np.array(b) for b in blocks]} if blocks else {}
    s.test_error = c["test"]
    s.shared_coefficients = True
    absolute = d["perm"][1] == 0
    s.loss_function.error_type = "absolute" if absolute else "relative"

    before = deepcopy([s.training_data, s.test_data, s.basis_eval, s.weights, s.basis_adaptation_path, s.error_estimation_options, s.regularization_options,
                       s.linear_solver, s.error_estimation_type, s.options])
    (val, err) = ctx.call(s.solve)
    after = [s.training_data, s.test_data, s.basis_eval, s.weights, s.basis_adaptation_path, s.error_estimation_options, s.regularization_options,
             s.linear_solver, s.error_estimation_type, s.options]
    frame = same(before, after)

    # --------------------------------------------------- can it be judged?
    Aw = L(A * sw[:, None])
    ysw = [[int(v) for v in z * sw] for z in outs]
    try:
        if A.shape[0] < 2 or nf < 2:
            raise Big
        for z, zt in zip(ysw, touts):
            xs = []
            if selects or est not in ("none", "residuals"):
                if not any(z):
                    raise Big
            if selects:
                if len(z) < P:
                    raise Big
                cands = [[bool(v) for v in col] for col in pb.path.T] if mode == "adapt" and pb.path is not None else \
                    [[j in q for j in range(P)] for k in range(1, P + 1) for q in itertools.combinations(range(P), k)] if mode in ("l0", "l1") else \
                    [[j <= k for j in range(P)] for k in range(P)]
                if not any(any(q) for q in cands):
                    raise Big
                xs = judge_path(Aw, z, cands, est, nf, c["corr"], H, c["stop"])
            elif mode == "ols":
                if np.linalg.matrix_rank(A) == P and A.shape[0] >= P:
                    x = solve(Aw, z)
                    xs = [x]
                    if est == "residuals":
                        chk(msq(res(Aw, z, x, range(len(z)))) / F(sum(v * v for v in z), len(z)))
                    elif est != "none":
                        judge_cv(Aw, z, est, nf, c["corr"], H)
                else:
                    if est != "none":
                        s0 = None
                        raise Big
                    if c["test"] or c["src"] == "basis":
                        raise Big
            else:
                if np.linalg.matrix_rank(A) < P or A.shape[0] < P:
                    raise Big
                xs = [solve(Aw, z, F(*d["al"]) if mode == "l2" else F(0))] if mode == "l2" else []
                if est == "k_fold":
                    for q in range(1, P + 1):
                        for c0 in itertools.combinations(range(P), q):
                            judge_cv([[r[j] for j in c0] for r in Aw], z, est, nf, False, H)
                if mode in ("l0", "l1") and c["test"]:
                    xs = [[F(0)] * P]
                    for q in range(1, P + 1):
                        for c0 in itertools.combinations(range(P), q):
                            x = [F(0)] * P
                            for j, t in zip(c0, solve([[r[j] for j in c0] for r in Aw], z)):
                                x[j] = t
                            xs.append(x)
            if c["test"] and not absolute and not any(zt):
                raise Big
            for x in xs:
                if c["test"]:
                    e = msq(res(L(At), zt.tolist(), x, range(len(zt))))
                    mul(e, F(len(zt), int(sum(zt * zt))) if any(zt) else F(1))
    except (Big, ZeroDivisionError):
        return False
    alpha = d["al"]

    def project(v):
        sol, out = v
        n = len(outs)
        func = None
        if s.basis is not None:
            func = sol
            sol = np.reshape(sol.data, [P, -1], order="F")
        sol = np.reshape(np.asarray(sol, dtype=float), [P, -1])
        rs = []
        for k in range(n):
            o = {"y": [int(t) for t in outs[k]], "yt": [int(t) for t in touts[k]], "sol": rats(sol[:, k]), "est": False, "err": [0, 1, 0], "err1": [0, 1, 0], "delta": [],
                 "grad": [], "pats": [], "errs": [], "deltas": [], "ind": 0, "pat": [], "terr": [0, 1, 0], "val": []}
            o["grad"] = vp.ints(np.array(Aw, dtype=float).T @ (np.array(ysw[k]) - np.array(Aw) @ sol[:, k]))
            ok = out["outputs"][k] if n > 1 and "outputs" in out else out
            if "error" in ok:
                o["est"] = True
                e = np.ravel(out["error"])[k]
                o["err"], o["err1"] = sq(e), sqe(e)
                if "outputs" in out and n > 1 and sq(np.ravel(ok["error"])[0]) != o["err"]:
                    o["err"] = [vp.BIG, 1, vp.BIG]
                if "delta" in ok:
                    dl = np.asarray(ok["delta"], dtype=float)
                    o["delta"] = rats(dl[:, k] if dl.ndim == 2 and dl.shape[1] == n and n > 1 else dl)
            if "pattern_path" in ok:
                m = ok["pattern_path"].shape[1]
                o["pats"] = [[bool(t) for t in ok["pattern_path"][:, j]] for j in range(m)]
                o["errs"] = [sq(t) for t in ok["error_path"]]
                o["deltas"] = [rats(ok["delta_path"][:, j]) for j in range(m)]
                o["ind"] = int(ok["ind"]) + 1
                o["pat"] = [bool(t) for t in ok["pattern"]]
            if c["test"]:
                o["terr"] = sq(np.ravel(out["test_error"])[k])
                if np.size(out["test_error"]) != n:
                    o["terr"] = [vp.BIG, 1, vp.BIG]
            if func is not None:
                fx = np.reshape(np.asarray(func(d["xt"].astype(float)), dtype=float), [len(d["xt"]), -1])
                o["val"] = rats(fx[:, k])
            rs.append(o)
        if sol.shape[1] != n:
            rs.append(rs[0])
        return {"res": rs}

    kind = "ols" if mode == "ols" else "path" if selects else "reg"
    if kind == "path" and not err and P == 1 and mode in ("l0", "l1"):
        return False      # a path of one candidate: the penalised solution is returned
    fields = {"kind": kind, "mode": mode, "est": est if s.error_estimation or selects else "none", "nf": nf, "corr": c["corr"], "H": H, "A": L(A),
              "sw": [int(t) for t in sw], "nout": len(outs), "path": [], "blocks": [[j + 1 for j in b] for b in blocks], "stop": c["stop"], "al": alpha, "test": c["test"] and not (kind == "reg" and mode == "l1"), "abst": bool(absolute), "npt": len(d["xt"]),
              "At": L(At), "Av": L(At), "frame": frame, "greedy": not blocks and bool(np.all(np.abs(A * sw[:, None]) <= 1)), "fresh": fresh}
    if mode == "adapt":
        fields["path"] = [[bool(t) for t in col] for col in (pb.path.T if pb.path is not None else np.triu(np.ones((P, P))).T)]
    sig = "%s.%s.%s.%s" % (kind, mode, fields["est"], c["src"])
    repro = {"config": c, "sets": [{k: np.asarray(t).tolist() for k, t in e.items()} for e in pb.sets[c["data"] - 1:c["data"]]]}
    if err:
        fields["res"] = []
        ctx.rec("solve", sig=sig, repro=repro, **fields)["err"] = err
    else:
        ctx.observe("solve", lambda: val, project, sig=sig, repro=repro, **fields)
    return True


def same(a, b):
    if a is None:        # what was not given may be filled in
        return True
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and bool(np.all(a == b))
    return not isinstance(b, np.ndarray) and (a is b or a == b)


class Fun:
    def __init__(self, p, how):
        if how == "eval":
            self.eval = lambda x: p
        else:
            self.f = lambda x: p

    def __call__(self, x):
        return self.f(x)


def risks(ctx, rng):
    n, k = int(rng.randint(1, 6)), int(rng.randint(1, 3))
    p, t = rng.randint(-4, 5, (n, k)), rng.randint(-4, 5, (n, k))
    if rng.rand() < 0.15:
        p = t.copy()
    pv, tv = p.astype(float), t.astype(float)
    if k == 1 and rng.rand() < 0.7:
        pv = pv[:, 0] if rng.rand() < 0.7 else pv
        tv = tv[:, 0] if rng.rand() < 0.7 else tv
    how = ["array", "eval", "call", "lambda"][rng.randint(4)]
    f = {"array": pv, "eval": Fun(pv, "eval"), "call": Fun(pv, "call"), "lambda": lambda x: pv}[how]
    loss = tensap.SquareLossFunction()
    sample = [np.zeros((n, 1)), tv]

    def go():
        out = {"loss": vp.ints(loss.eval(f, sample)), "risk": vp.rat(loss.risk_estimation(f, sample))}
        loss.error_type = "absolute"
        out["abs2"] = vp.rat(float(loss.test_error(f, sample)) ** 2)
        loss.error_type = "relative"
        out["rel2"] = vp.rat(float(loss.test_error(f, sample)) ** 2) if np.any(t) else [0, 1]
        return out
    ctx.observe("risk", go, lambda v: v, pred=L(p), true=L(t), sig="risk." + how)


def run(ctx):
    n, p, v = ctx.n((3, 2, 1), (4, 2, 1))
    ctx.model("LsSpec", ["Incremental", "Minimiser", "Shortcut", "Pessimistic", "Penalty"], init="InitEx", next_="NextEx",
              constants=["NROW = %d" % n, "NCOL = %d" % p, "VMAX = %d" % v])
    ln = 6
    hists = ctx.generate("LsSpec", ["NROW = %d" % ln, "NCOL = 1", "VMAX = 1"], init="SimInit", next_="SimNext", invariants=["EmitHist"],
                         simulate=ctx.n(600, 6000), depth=ln + 1)
    rng = ctx.sub_rng("lives")
    done = 0
    for h in hists:
        pb = Problem(rng, None)
        s = tensap.LinearModelLearningSquareLoss()
        for k, c in enumerate(h):
            done += step(ctx, pb, s, c, k == 0)
    ctx.notes.append("%d solves of %d lives judged" % (done, len(hists)))
    rng = ctx.sub_rng("risk")
    for _ in range(ctx.n(250, 2500)):
        risks(ctx, rng)
