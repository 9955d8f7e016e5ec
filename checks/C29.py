"""C29: density estimation solves and scores its empirical problem."""
from copy import deepcopy

import numpy as np
import tensap

import vp


def same(a, b):
    if a is None:        # what was not given may be filled in
        return True
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and bool(np.all(a == b))
    return not isinstance(b, np.ndarray) and (a is b or a == b)


def L(a):
    return [[int(x) for x in r] for r in a]


def rat(x):
    return [1, 0] if np.isposinf(x) else vp.rat(x)


class Table(tensap.FunctionalBasis):
    """Functions given by their integer values at the points 0, 1, 2, ..."""

    def __init__(self, values):
        super().__init__()
        self.values = np.asarray(values, dtype=float)
        self.is_orthonormal = True

    def eval(self, x):
        return self.values[np.ravel(np.asarray(x)).astype(int), :]

    def cardinal(self):
        return self.values.shape[1]

    def ndims(self):
        return 1

    def __eq__(self, other):
        return np.all(self.values == other.values)


def degenerate(A, b, cands, stop):
    """Exact ties in the early stopping rule are not judged."""
    from fractions import Fraction as F
    if not stop:
        return False
    prev = None
    n = len(A)
    for q in cands:
        e = F(0)
        for j in q:
            s, ss = int(sum(A[:, j])), int(sum(A[:, j] ** 2))
            for i in range(n):
                v = F(s - int(A[i, j]), n - 1) - int(b[j])
                e += (v * v + 2 * v * int(b[j]) - 2 * v * int(A[i, j])) / n
        if prev is not None and e == prev + abs(prev):
            return True
        prev = e
    return False


def life(ctx, rng, steps):
    s = tensap.LinearModelLearningDensityL2()
    P = int(rng.randint(1, 6))
    for k in range(steps):
        N = int(rng.randint(2, 7))
        lo = int(rng.choice([1, 2, 4]))
        A = rng.randint(-lo, lo + 1, (N, P))
        At = rng.randint(-2, 3, (int(rng.randint(1, 5)), P))
        b = rng.randint(-2, 3, P) if rng.rand() < 0.5 else None
        mode = ["std", "adapt", "reg"][rng.randint(3)]
        s.basis_adaptation, s.regularization = mode == "adapt", mode == "reg"
        m = int(rng.randint(1, 6))
        path = rng.rand(P, m) < 0.6
        default = rng.rand() < 0.4
        s.basis_adaptation_path = None if default else (path if rng.rand() < 0.5 else path.astype(float) * 2.5)
        p01 = np.triu(np.ones((P, P), dtype=bool)) if default else path
        incl = sorted(rng.permutation(P)[:rng.randint(1, P + 1)].tolist()) if mode == "reg" and rng.rand() < 0.5 else []
        s.regularization_options = {"included_coefficients": list(incl) if rng.rand() < 0.5 else np.array(incl)} if incl else {}
        stop = mode == "adapt" and rng.rand() < 0.3
        s.model_selection_options = {"stop_if_error_increase": bool(stop)}
        s.error_estimation = bool(rng.rand() < 0.7)
        s.error_estimation_type = "leave_out"
        s.test_error = bool(rng.rand() < 0.5)
        src = ["matrix", "matrix3", "basis"][rng.randint(3)]
        s.basis, s.basis_eval, s.basis_eval_test = None, None, None
        x, xt = None, None
        if src == "basis":
            tab = np.vstack([A, At])
            s.basis = Table(tab)
            x, xt = np.arange(N, dtype=float)[:, None], np.arange(N, len(tab), dtype=float)[:, None]
            if rng.rand() < 0.3:       # the same points, in another order
                x = x[rng.permutation(N)]
        else:
            s.basis_eval, s.basis_eval_test = A.astype(float), At.astype(float)
            if src == "matrix3":
                s.basis_eval, s.basis_eval_test = s.basis_eval[:, :, None], s.basis_eval_test[:, :, None]
        s.training_data = [x] if b is None else [x, b.astype(float)]
        if b is None and x is not None and rng.rand() < 0.3:
            s.training_data = x
        s.test_data = [xt]
        bb = np.zeros(P, dtype=int) if b is None else b
        if mode == "adapt" and not any(0 < c.sum() <= N for c in p01.T):
            continue
        if degenerate(A, bb, [np.flatnonzero(c) for i, c in enumerate(p01.T) if 0 < c.sum() <= N and not any(np.array_equal(c, e) for e in p01.T[:i])], stop):
            continue
        if mode == "reg":
            e = A.sum(axis=0) - N * bb
            order = sorted((j for j in range(P) if j not in incl), key=lambda j: -abs(e[j]))
            if any(e[j] == 0 for j in range(P)):       # the reported patterns do not show zero coefficients
                continue
        before = deepcopy([s.training_data, s.test_data, s.basis_eval, s.basis_eval_test, s.basis_adaptation_path, s.regularization_options, s.model_selection_options])
        val, err = ctx.call(s.solve)
        frame = same(before, [s.training_data, s.test_data, s.basis_eval, s.basis_eval_test, s.basis_adaptation_path, s.regularization_options, s.model_selection_options])

        def project(v):
            sol, out = v
            o = {"val": [], "error": [0, 1], "pats": [], "errs": [], "sols": [], "ind": 0, "pat": [], "opt": [], "terr": [0, 1]}
            if s.basis is not None:
                o["val"] = vp.rats(np.ravel(sol(xt)))
                sol = sol.data
            o["sol"] = vp.rats(sol)
            if mode != "std" or s.error_estimation:
                o["error"] = rat(out["error"])
            if mode != "std" and len(incl) < P:
                m = out["pattern_path"].shape[1]
                o["pats"] = [[bool(t) for t in out["pattern_path"][:, j]] for j in range(m)]
                o["errs"] = [rat(t) for t in out["error_path"]]
                o["sols"] = [vp.rats(out["solution_path"][:, j]) for j in range(m)]
                o["ind"], o["pat"], o["opt"] = int(out["ind"]) + 1, [bool(t) for t in out["pattern"]], vp.rats(out["optimal_solution"])
            if s.test_error:
                o["terr"] = rat(out["test_error"])
            return o
        if s.training_data is x:
            pass
        f = {"mode": mode, "A": L(A), "b": [int(t) for t in bb], "est": s.error_estimation, "stop": bool(stop), "incl": [j + 1 for j in incl], "test": s.test_error,
             "At": L(At), "Av": L(At), "frame": frame, "path": [[bool(t) for t in c] for c in p01.T] if mode == "adapt" else []}
        sig = "solve.%s.%s.%s" % (mode, src, "known" if b is not None else "free")
        repro = {"A": L(A), "b": bb.tolist(), "incl": incl}
        if err:
            ctx.rec("solve", sig=sig, repro=repro, **f)["err"] = err
        else:
            ctx.observe("solve", lambda: val, project, sig=sig, repro=repro, **f)


class Fun:
    def __init__(self, v, n):
        self.v, self.n = v, n

    def eval(self, x):
        return self.v

    def norm(self):
        return self.n


def risks(ctx, rng):
    n = int(rng.randint(1, 6))
    v = rng.randint(-4, 5, n)
    nrm = int(rng.randint(0, 5))
    loss = tensap.DensityL2LossFunction()
    sample = [np.zeros((n, 1))]
    how = ["object", "array", "callable"][rng.randint(3)]
    f = {"object": Fun(v.astype(float), float(nrm)), "array": v.astype(float), "callable": lambda x: v.astype(float)}[how]
    a = [] if how == "object" else [float(nrm)]
    ctx.observe("risk", lambda: [loss.eval(f, sample, *a), loss.risk_estimation(f, sample, *a), loss.test_error(f, sample, *a)],
                lambda o: {"loss": vp.ints(o[0]), "risk": vp.rat(o[1]), "terr": vp.rat(o[2])}, pred=[int(t) for t in v], norm2=nrm * nrm, sig="risk." + how)


def run(ctx):
    n, p, v = ctx.n((3, 2, 1), (4, 2, 1))
    ctx.model("DensSpec", ["Minimiser", "ClosedForm", "Separable"], constants=["NROW = %d" % n, "NCOL = %d" % p, "VMAX = %d" % v])
    rng = ctx.sub_rng("lives")
    for _ in range(ctx.n(500, 8000)):
        life(ctx, rng, int(rng.randint(1, 5)))
    rng = ctx.sub_rng("risk")
    for _ in range(ctx.n(200, 2000)):
        risks(ctx, rng)
