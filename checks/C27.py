"""C27: alternating minimisation never loses its iterates.

Scripted subproblems (behaviours of AltMinSpec generated by TLC) are plugged
into the real loop; and the sweeps of the real learners are recorded visit by
visit (through the public extension points prepare_alternating_minimization_system
and set_parameter) and checked against the specification."""
from copy import deepcopy

import numpy as np
import tensap

import formats as F
import vp
import C23

INF = 2147483646


# ------------------------------------------------------------------- scripted
class Loss(tensap.SquareLossFunction):
    def test_error(self, fun, sample):
        return float(fun.tensor.space[-1][0, 0])


class Sub:
    """A linear solver that answers what the script says."""

    def __init__(self, owner):
        self.owner = owner
        self.basis_adaptation = False
        self.error_estimation = False
        self.model_selection = False

    def solve(self):
        own = self.owner
        x = own.xs[own.used]
        own.used += 1
        own.last = x
        out = {"error": float(x["e"])} if own.opt["est"] else {}
        if x["val"] == 0:
            return [None, np.zeros(1), np.array([np.nan]), np.array([np.inf])][own.used % 4], out
        return np.array([float(x["val"])]), out


class Scripted(tensap.TensorLearning):
    def __init__(self, opt, xs):
        super().__init__(Loss())
        self.opt, self.xs, self.used, self.last = opt, xs, 0, None
        self.seen = []
        self.sweep = 0
        self.order = len(opt["v0"])
        self.linear_model_learning = [Sub(self) for _ in range(self.order)]
        self.display = False
        self._warnings = {"orthonormality_warning_display": False, "empty_bases_warning_display": False}

    def initialize(self):
        self._number_of_parameters = self.order
        self._exploration_strategy = np.array(self.opt["orders"][0])
        return self, tensap.CanonicalTensor([np.full((1, 1), float(v)) for v in self.opt["v0"]], np.ones(1))

    def pre_processing(self, f):
        return self, f

    def randomize_exploration_strategy(self):
        self.sweep += 1
        return np.array(self.opt["orders"][self.sweep - 1])

    def prepare_alternating_minimization_system(self, f, mu):
        self.seen.append([int(mu), values(f)])
        return self, np.ones((2, 1)), np.zeros(2), f

    def set_parameter(self, f, mu, coef):
        f.tensor.space[mu - 1][0, 0] = coef[0]
        return f

    def stagnation_criterion(self, f, f0):
        return 0.0 if self.last["val"] == 0 else float(self.last["stag"])

    def final_display(self, f):
        pass

    local_solver = new_rank_selection = initial_guess_new_rank = adaptation_display = None


def nothing(self, *a):
    raise NotImplementedError


for _n in ("local_solver", "new_rank_selection", "initial_guess_new_rank", "adaptation_display"):
    setattr(Scripted, _n, nothing)


def values(f):
    return [vp.to_int(a[0, 0] * (f.tensor.core.data[0] if i == 0 else 1)) for i, a in enumerate(f.tensor.space)]


def scripted(ctx, case, rng):
    o, xs = case["o"], list(case["xs"])
    P = len(o["v0"])
    random = bool(rng.rand() < 0.6)
    if not random:
        o = dict(o, orders=[o["orders"][0]] * len(o["orders"]))
    xs += [dict(val=5, e=3, stag=3)] * (o["sweeps"] * P - len(xs))
    fun, store = bool(rng.rand() < 0.5), bool(rng.rand() < 0.7)

    def run():
        s = Scripted(o, xs)
        h = tensap.FunctionalBases.duplicate(tensap.PolynomialFunctionalBasis(tensap.LegendrePolynomials(), range(1)), P)
        x = np.zeros((2, P))
        if fun:
            s.bases = h
        else:
            s.bases_eval, s.bases_eval_test = h.eval(x), h.eval(x)
        s.training_data, s.test_data = [x, np.zeros(2)], [x, np.zeros(2)]
        s.test_error = o["hasTest"]
        s.store_iterates = store
        s.tolerance = {"on_error": 2, "on_stagnation": 2}
        s.alternating_minimization_parameters.update({"max_iterations": o["sweeps"], "stagnation": 2, "random": random})
        return s, s.solve()

    def out(res):
        s, (f, output) = res
        return dict(seen=s.seen, flag=int(output["flag"]), v=values(f), I=[values(g) for g in output.get("iterates", [])],
                    E=[C23.back(v) for v in output.get("error_iterations", [])], T=[C23.back(v) for v in output.get("test_error_iterations", [])],
                    S=[C23.back(v) for v in output.get("stagnation_criterion", [])], store=store,
                    error=C23.back(output["error"]) if "error" in output else 0, terr=C23.back(output["test_error"]) if "test_error" in output else 0)

    ctx.observe("script", run, out, sig="script", repro=dict(o=o, xs=xs, random=random, fun=fun, store=store), o=o, xs=xs)


# -------------------------------------------------------------- real learners
def predict(f, H):
    t = f.tensor
    if isinstance(t, tensap.CanonicalTensor):
        return np.asarray(t.tensor_matrix_product(H).eval_diag().data)
    return np.asarray(t.tensor_matrix_product_eval_diag(H).data)


def parameter(s, f, mu):
    """Current coefficients of the parameter visited at mu."""
    t = f.tensor
    if not isinstance(t, tensap.CanonicalTensor):
        return np.reshape(t.tensors[mu - 1].data, -1, order="F")
    d, r = t.order, len(t.core.data)
    if mu == s._number_of_parameters:
        return np.array(t.core.data)
    if not s.alternating_minimization_parameters["one_by_one_factor"]:
        return np.reshape(t.space[mu - 1] * t.core.data, -1, order="F")
    loops = s.alternating_minimization_parameters["inner_loops"]
    col = (mu - 1) % r
    return t.space[(mu - 1) // (loops * r)][:, col] * t.core.data[col]


class Spy:
    """Records every visit of a real learner."""

    def watch(self):
        self.visits = []
        return self

    def apply(self, f, mu, A, b, th):
        A = np.asarray(A)
        if isinstance(self.loss_function, tensap.DensityL2LossFunction):
            return A.reshape(A.shape[0], -1, order="F") @ np.ravel(th, order="F")
        out = self.output_dimension
        if A.ndim == 3:
            p = np.einsum("npo,p->no", A, np.ravel(th))
        elif out > 1:
            p = A @ np.reshape(th, (A.shape[1], -1), order="F")
        else:
            p = A @ np.ravel(th, order="F")
        y = self.training_data[1]
        return np.reshape(p, np.shape(y)) + (y - np.reshape(b, np.shape(y)))

    def risk(self, f):
        p = predict(f, self.bases_eval)
        if isinstance(self.loss_function, tensap.DensityL2LossFunction):
            return f.tensor.norm() ** 2 - 2 * np.mean(p)
        y = self.training_data[1]
        return np.sum((np.reshape(p, y.shape) - y) ** 2) / np.sum(y ** 2)

    def prepare_alternating_minimization_system(self, f, mu):
        before = predict(f, self.bases_eval)
        r1 = self.risk(f)
        _, A, b, f = super().prepare_alternating_minimization_system(f, mu)
        self.pending = (np.array(A), np.array(b))
        sys = self.apply(f, mu, A, b, parameter(self, f, mu))
        self.visits.append(dict(mu=int(mu), before=before, mid=predict(f, self.bases_eval), sys=sys, risk1=r1))
        return self, A, b, f

    def set_parameter(self, f, mu, coef):
        A, b = self.pending
        sol = self.apply(f, mu, A, b, np.array(coef))
        self.visits[-1]["loose"] = illposed(self, A, np.ravel(coef))
        f = super().set_parameter(f, mu, coef)
        self.visits[-1].update(sol=sol, after=predict(f, self.bases_eval), risk2=self.risk(f))
        return f


def illposed(s, A, coef):
    """The subproblem loses more digits than the comparison keeps."""
    flat = np.reshape(A, (A.shape[0], -1), order="F") if A.ndim < 3 or isinstance(s.loss_function, tensap.DensityL2LossFunction) else np.reshape(np.transpose(A, (0, 2, 1)), (-1, A.shape[1]), order="F")
    if not np.all(np.isfinite(flat)) or np.linalg.cond(flat) > 1e7:
        return True
    return bool(np.abs(flat).max() * np.abs(coef).max() * flat.shape[1] > 1e6 * max(1.0, float(np.max(np.abs(s.training_data[1] if isinstance(s.training_data, list) else 1)))))


class SpyTree(Spy, tensap.TreeBasedTensorLearning):
    pass


class SpyCanonical(Spy, tensap.CanonicalTensorLearning):
    pass


def data(rng, d, deg, n, out=1):
    bases = tensap.FunctionalBases.duplicate(tensap.PolynomialFunctionalBasis(tensap.LegendrePolynomials(), range(deg + 1)), d)
    x, xt = rng.uniform(-1, 1, (n, d)), rng.uniform(-1, 1, (20, d))
    c = rng.randint(-3, 4, (d + 2, out))

    def f(z):
        y = np.stack([1 / (3 + z.mean(1)) + z @ c[:d, k] + c[d, k] * z[:, 0] * z[:, -1] + c[d + 1, k] * np.prod(z, 1) + 5 for k in range(out)], 1)
        return y[:, 0] if out == 1 else y
    return bases, x, f(x), xt, f(xt)


def a_tree(rng, d):
    if d == 2:
        return tensap.DimensionTree.trivial(2)
    return [tensap.DimensionTree.balanced, tensap.DimensionTree.linear, tensap.DimensionTree.trivial, lambda k: tensap.DimensionTree.random(k, 2)][rng.randint(4)](d)


def a_pattern(rng, tree):
    active = np.full(tree.nb_nodes, True)
    for leaf in tree.dim2ind:
        active[leaf - 1] = rng.rand() < 0.6
    return active


def admissible(rng, tree, active, shape, out, top):
    for _ in range(60):
        r = rng.randint(1, top + 1, tree.nb_nodes) * active
        r[tree.root - 1] = out
        t = tensap.TreeBasedTensor.randn(tree, np.where(active, 1, 0) * 1 if out == 1 else np.where(np.arange(tree.nb_nodes) == tree.root - 1, out, active * 1), shape, list(active))
        if t.is_admissible_rank(r):
            return r
    r = active * 1
    r[tree.root - 1] = out
    return r


def common(s, bases, x, y, xt, yt, rng):
    s.bases = bases
    s.training_data, s.test_data = [x, y], [xt, yt]
    s.display = False
    s._warnings = {"orthonormality_warning_display": False, "empty_bases_warning_display": False}
    s.linear_model_learning.basis_adaptation = False
    s.linear_model_learning.error_estimation = False
    return s


def project(s, res, scale, frame):
    f, output = res
    fx = lambda v: [vp.fix(float(a), scale) for a in np.ravel(v)[:12]]
    rel = lambda v: vp.fix(min(float(v), 2000.0), 10 ** 6)
    H, Ht = s.bases.eval(s.training_data[0] if isinstance(s.training_data, list) else s.training_data), None
    score = lambda g: 0.0
    if s.test_error:
        td = s.test_data
        Ht = s.bases.eval(td[0] if isinstance(td, list) else td)
        score = lambda g: s.loss_function.test_error(tensap.FunctionalTensor(g.tensor, Ht), td)
    stag = [float(v) for v in output["stagnation_criterion"]]
    T = [float(v) for v in output["test_error_iterations"]]
    return dict(
        visits=[dict(mu=v["mu"], risk1=rel(v["risk1"]), risk2=rel(v["risk2"]), loose=v["loose"], **{k: fx(v[k]) for k in ("before", "mid", "sys", "sol", "after")}) for v in getattr(s, "visits", []) if "after" in v],
        failed=bool(output["flag"] == -2), I=[fx(predict(g, H)) for g in output["iterates"]], f=fx(predict(f, H)),
        T=[rel(v) for v in T], iterT=[rel(score(g)) for g in output["iterates"]] if s.test_error else [],
        stag=[rel(v) if np.isfinite(v) else INF for v in stag], E=[rel(min(float(np.max(v)), 1000.0)) for v in output["error_iterations"]], flag=int(output["flag"]),
        small=bool(len(stag) > 0 and stag[-1] < s.alternating_minimization_parameters["stagnation"]), good=bool(s.test_error and T[-1] < s.tolerance["on_error"]),
        frame=frame())


def framed(s):
    keep = deepcopy((s.training_data, s.test_data, s.initial_guess))
    flat = lambda v: [v] if isinstance(v, np.ndarray) else list(v or [])

    def frame():
        a = all(np.array_equal(p, q) for p, q in zip(flat(keep[0]) + flat(keep[1]), flat(s.training_data) + flat(s.test_data)))
        g = keep[2]
        if g is not None:
            a = a and np.array_equal(np.asarray(g.full().data), np.asarray(s.initial_guess.full().data))
        return bool(a)
    return frame


def real_tree(ctx, rng, density=False):
    d = int(rng.randint(2, 5))
    out = 1 if density or rng.rand() < 0.75 else int(rng.randint(2, 4))
    n = int(rng.randint(25, 60))
    bases, x, y, xt, yt = data(rng, d, int(rng.randint(1, 3)), n, out)
    tree = a_tree(rng, d)
    active = a_pattern(rng, tree)
    shape = [b.cardinal() for b in bases.bases]
    rank = admissible(rng, tree, active, shape, out, 3)
    loss = tensap.DensityL2LossFunction() if density else tensap.SquareLossFunction()
    s = common(SpyTree(tree, list(active), loss).watch(), bases, x, y, xt, yt, rng)
    if density:
        s.training_data, s.test_data = x, xt
    init = ["random", "ones", "initial_guess", "canonical", "mean", "mean_randomized"][rng.randint(3 if density else 6)]
    s.initialization_type = init
    if init in ("mean", "mean_randomized"):
        rank = active * 1
        rank[tree.root - 1] = out
    s.rank = np.array(rank) if rng.rand() < 0.8 or not np.all(rank == rank[0]) or out > 1 else int(rank[0])
    if init == "initial_guess":
        s.initial_guess = tensap.TreeBasedTensor.randn(tree, np.array(rank), shape, list(active))
    random = bool(rng.rand() < 0.4)
    its = int(rng.randint(1, 5))
    s.alternating_minimization_parameters.update({"max_iterations": its, "random": random, "stagnation": float(rng.choice([1e-6, 0.05, 0.5]))})
    s.tolerance["on_error"] = float(rng.choice([1e-6, 1e-1]))
    s.test_error = bool(rng.rand() < 0.6)
    adapt = bool(not density and out == 1 and rng.rand() < 0.2)
    s.linear_model_learning.basis_adaptation = adapt
    s.error_estimation = bool(adapt or (not density and rng.rand() < 0.4))
    if rng.rand() < 0.2 and s.linear_model_learning_parameters["identical_for_all_parameters"]:
        # one solver per parameter
        s.linear_model_learning = [deepcopy(s.linear_model_learning) for _ in range(int(np.count_nonzero(active)))]
    frame = framed(s)
    sc = 10 ** 6 / (10.0 if density else float(np.max(np.abs(y))))
    ctx.observe("real", lambda: s.solve(), lambda res: project(s, res, sc, frame), sig="real:%s:%s%s" % ("density" if density else "tree", init, ":random" if random else ""),
                repro=dict(d=d, out=out, n=n, rank=[int(v) for v in rank], active=[bool(v) for v in active], init=init, random=random, its=its, adapt=adapt),
                kind="tree", per=int(np.count_nonzero(active)), level=[int(v) for v in tree.level], active=[int(v) + 1 for v in np.nonzero(active)[0]],
                random=random, sweeps=its, test=s.test_error, exact=not adapt and not density, d=d, rank=0, loops=0)


def starting(ctx, rng):
    """The function the minimisation starts from."""
    d = int(rng.randint(2, 5))
    out = 1 if rng.rand() < 0.75 else 2
    n = int(rng.randint(20, 40))
    bases, x, y, xt, yt = data(rng, d, int(rng.randint(1, 4)), n, out)
    canonical = bool(out == 1 and rng.rand() < 0.3)
    shape = [b.cardinal() for b in bases.bases]
    init = ["random", "ones", "guess_same", "guess_double", "guess_lower", "mean", "canonical"][rng.randint(7)]
    guess = None
    if canonical:
        init = ["random", "ones", "guess_same", "mean"][rng.randint(4)]
        s = common(tensap.CanonicalTensorLearning(d, tensap.SquareLossFunction()), bases, x, y, xt, yt, rng)
        rank = int(rng.randint(1, 4)) if init != "mean" else 1
        s.rank = rank
        want, active = [rank], []
        if init == "guess_same":
            guess = tensap.CanonicalTensor.randn(rank, shape)
    else:
        tree = a_tree(rng, d)
        act = a_pattern(rng, tree)
        rank = admissible(rng, tree, act, shape, out, 3)
        if init == "mean":
            rank = act * 1
            rank[tree.root - 1] = out
        s = common(tensap.TreeBasedTensorLearning(tree, list(act), tensap.SquareLossFunction()), bases, x, y, xt, yt, rng)
        s.rank = np.array(rank)
        want, active = [int(v) for v in rank], [bool(v) for v in act]
        low = np.minimum(rank, act * 1)
        low[tree.root - 1] = out
        if init in ("guess_same", "guess_double"):
            guess = tensap.TreeBasedTensor.randn(tree, np.array(rank), shape, list(act))
            if init == "guess_double":
                guess = guess + guess
        elif init == "guess_lower":
            guess = tensap.TreeBasedTensor.randn(tree, low, shape, list(act))
    s.initialization_type = "initial_guess" if guess is not None else init
    s.initial_guess = guess
    s.bases_eval = bases.eval(x)
    s.output_dimension = out
    keep = None if guess is None else F.dense(guess)
    asked = np.array(s.rank)

    def out_(res):
        s2, f = res
        g = predict(tensap.FunctionalTensor(f, bases), s.bases_eval)
        m = float(max(1e-12, np.max(np.abs(g))))
        sc = 10 ** 6 / m
        ref = []
        if init in ("guess_same", "guess_double"):
            ref = [vp.fix(float(v), sc) for v in np.ravel(predict(tensap.FunctionalTensor(guess, bases), s.bases_eval))[:12]]
        elif init == "mean":
            ref = [vp.fix(float(v), sc) for v in np.ravel(np.tile(np.mean(y, 0), (n, 1)))[:12]]
        return dict(now=[int(v) for v in np.atleast_1d(s2.rank)], cut=bool(canonical and d == 2), ranks=[int(v) for v in np.atleast_1d(f.ranks if not canonical else f.core.shape[0])], act=[] if canonical else [bool(v) for v in f.is_active_node],
                    shape=[int(v) for v in f.shape], vals=[vp.fix(float(v), sc) for v in np.ravel(g)[:12]], ref=ref, finite=bool(np.all(np.isfinite(g))),
                    guess=bool(keep is None or np.array_equal(keep, F.dense(guess))))

    ctx.observe("init", s.initialize, out_, sig="init:%s:%s" % ("canonical" if canonical else "tree", init), want=want, active=active, size=[int(v) for v in shape], how=init,
                repro=dict(d=d, out=out, n=n, rank=want, init=init, active=active))


def patterns(ctx, rng):
    """Candidate patterns handed to the sub-problem of a node."""
    d = int(rng.randint(2, 6))
    tree = a_tree(rng, d)
    act = a_pattern(rng, tree)
    card = [int(rng.randint(1, 4)) for _ in range(d)]
    ranks = np.where(act, rng.randint(1, 4, tree.nb_nodes), 0)
    s = tensap.TreeBasedTensorLearning(tree, list(act), tensap.SquareLossFunction())
    s.is_active_node = np.array(act)
    s.bases_adaptation_path = [np.triu(np.ones((c, c)))[:, -int(rng.randint(1, c + 1)):] if rng.rand() < 0.6 else (rng.rand(c, 2) < 0.6) * 1.0 for c in card]
    keep = [np.array(p) for p in s.bases_adaptation_path]
    nodes = [int(a) + 1 for a in np.nonzero(act)[0]]
    a = nodes[rng.randint(len(nodes))]
    dims = [int(v) for v in tree.dim2ind]
    ch = [int(c) for c in tree.children(a)]
    cols = lambda p: [[bool(v) for v in p[:, j]] for j in range(p.shape[1])]
    if not ch:
        own = [cols(keep[dims.index(a)]), [[True] * int(ranks[a - 1])]]
    else:
        own = [[[True] * int(ranks[c - 1])] if act[c - 1] else cols(keep[dims.index(c)]) for c in ch]
        own.append([[True] * (1 if a == tree.root else int(ranks[a - 1]))])

    def out(p):
        p = np.asarray(p)
        p = p.reshape(p.shape[0], -1)
        return dict(got=cols(p), bools=bool(p.dtype == bool),
                    frame=bool(all(np.array_equal(u, v) for u, v in zip(keep, s.bases_adaptation_path))))

    ctx.observe("path", lambda: s.create_basis_adaptation_path(np.array(ranks), a), out, own=own,
                sig="path:%s" % ("leaf" if not ch else "internal" if a != tree.root else "root"), repro=dict(d=d, node=a, active=[bool(v) for v in act], ranks=[int(v) for v in ranks], card=card))


def real_canonical(ctx, rng):
    d = int(rng.randint(2, 5))
    n = int(rng.randint(25, 60))
    bases, x, y, xt, yt = data(rng, d, int(rng.randint(1, 4)), n)
    s = common(SpyCanonical(d, tensap.SquareLossFunction()).watch(), bases, x, y, xt, yt, rng)
    shape = [b.cardinal() for b in bases.bases]
    s.rank = rank = int(rng.randint(1, 4))
    init = ["random", "ones" if rank == 1 else "random", "initial_guess", "mean", "mean_randomized", "greedy"][rng.randint(6)]
    s.initialization_type = init
    if init == "initial_guess":
        s.initial_guess = tensap.CanonicalTensor.randn(rank, shape)
    random = bool(rng.rand() < 0.4)
    its = int(rng.randint(1, 5))
    s.alternating_minimization_parameters.update({"max_iterations": its, "random": random, "stagnation": float(rng.choice([1e-6, 0.05, 0.5]))})
    cols = bool(rank > 1 and d > 2 and rng.rand() < 0.3)
    loops = int(rng.randint(1, 3)) if cols else 1
    if cols:
        s.alternating_minimization_parameters.update({"one_by_one_factor": True, "inner_loops": loops})
    s.tolerance["on_error"] = float(rng.choice([1e-6, 1e-1]))
    s.test_error = bool(rng.rand() < 0.6)
    s.error_estimation = bool(rng.rand() < 0.4)
    frame = framed(s)
    sc = 10 ** 6 / float(np.max(np.abs(y)))
    ctx.observe("real", lambda: s.solve(), lambda res: project(s, res, sc, frame), sig="real:canonical:%s%s%s" % (init, ":cols" if cols else "", ":random" if random else ""),
                repro=dict(d=d, n=n, rank=rank, init=init, random=random, its=its, cols=cols, loops=loops), kind="columns" if cols else "canonical",
                per=(d * rank * loops if cols else d) + 1, level=[], active=[], random=random, sweeps=its, test=s.test_error, exact=True, d=d, rank=rank, loops=loops)


# ----------------------------------------------------- exact models, restarts
def a_learner(rng, d, kind, ranks=3):
    """A learner without noise in its choices: bases, initial guess and ranks."""
    deg = int(rng.randint(1, 3))
    bases, x, y, xt, yt = data(rng, d, deg, 150)
    shape = [b.cardinal() for b in bases.bases]
    if kind == "canonical":
        r = int(rng.randint(1, ranks + 1))
        truth = tensap.CanonicalTensor.randn(r, shape)
        s = tensap.CanonicalTensorLearning(d, tensap.SquareLossFunction())
        s.rank = r
    else:
        tree = a_tree(rng, d)
        active = a_pattern(rng, tree)
        rank = admissible(rng, tree, active, shape, 1, ranks)
        truth = tensap.TreeBasedTensor.randn(tree, rank, shape, list(active))
        s = tensap.TreeBasedTensorLearning(tree, list(active), tensap.SquareLossFunction())
        s.rank = np.array(rank)
    ft = tensap.FunctionalTensor(truth, bases)
    common(s, bases, x, predict(ft, bases.eval(x)), xt, predict(ft, bases.eval(xt)), rng)
    s.initialization_type = "initial_guess"
    s.initial_guess = truth
    return s, truth


def exact(ctx, rng, kind):
    d = int(rng.randint(2, 5))
    s, truth = a_learner(rng, d, kind)
    start = deepcopy(truth)
    if kind == "canonical":
        start.space[0] = rng.randn(*start.space[0].shape)
    else:
        root = truth.tree.root
        start.tensors[root - 1] = tensap.FullTensor(rng.randn(*truth.tensors[root - 1].shape))
        start.is_orth = False
    s.initial_guess = start
    s.test_error = True
    s.tolerance["on_error"] = 0.0
    s.error_estimation = bool(rng.rand() < 0.3)
    s.alternating_minimization_parameters.update({"max_iterations": 3, "random": False, "stagnation": 1e-12})
    H, Ht = s.bases.eval(s.training_data[0]), s.bases.eval(s.test_data[0])
    y, yt = s.training_data[1], s.test_data[1]

    def out(res):
        f, o = res
        rel = lambda g, h, v: vp.fix(min(np.linalg.norm(predict(g, h) - v) / np.linalg.norm(v), 1000.0), 10 ** 6)
        return dict(risk=[rel(g, H, y) for g in o["iterates"]], fT=rel(f, Ht, yt))
    # a badly conditioned truth is not judged
    ctx.observe("exact", s.solve, out, sig="exact:%s" % kind, repro=dict(kind=kind, d=d, rank=np.atleast_1d(s.rank).tolist()))


def again(ctx, rng):
    kind = ["tree", "canonical"][rng.randint(2)]
    d = int(rng.randint(2, 5))
    s, truth = a_learner(rng, d, kind)
    s.initial_guess = None
    s.initialization_type = "random"
    mode = "standard"
    if kind == "tree" and rng.rand() < 0.4:
        mode = ["dmrg", "dmrg_low_rank"][rng.randint(2)]
        s.rank_adaptation = True
        s.rank_adaptation_options.update({"type": mode, "max_rank": 3})
    elif kind == "canonical" and rng.rand() < 0.4:
        mode = s.algorithm = "greedy"
    elif rng.rand() < 0.3:
        mode = "adaptive"
        s.rank_adaptation = True
        s.rank_adaptation_options.update({"max_iterations": 3})
    s.linear_model_learning.basis_adaptation = bool(rng.rand() < 0.3)
    s.alternating_minimization_parameters.update({"max_iterations": 3})
    s.error_estimation = True
    s.test_error = True
    second, n2, seed = bool(rng.rand() < 0.6), int(rng.randint(60, 120)), int(rng.randint(1000))
    _, x2, y2, xt2, yt2 = data(rng, d, 1, n2)
    first = deepcopy(s)
    if second:
        s.training_data, s.test_data = [x2, y2], [xt2, yt2]
    fresh = deepcopy(s)
    y = s.training_data[1]
    sc = 10 ** 6 / float(np.max(np.abs(y)))

    def go():
        np.random.seed(seed + 1)
        first.solve()
        first.training_data, first.test_data = deepcopy(fresh.training_data), deepcopy(fresh.test_data)
        H = first.bases.eval(first.training_data[0])
        res = []
        for learner in (first, fresh):
            np.random.seed(seed)
            f, o = learner.solve()
            res.append((predict(f, H), [float(v) for v in o["test_error_iterations"]]))
        return res

    ctx.observe("again", go, lambda res: dict(second=[vp.fix(v, sc) for v in res[0][0][:12]], fresh=[vp.fix(v, sc) for v in res[1][0][:12]],
                                             errs=[vp.fix(min(v, 1000.0), 10 ** 6) for v in res[0][1]], fresherrs=[vp.fix(min(v, 1000.0), 10 ** 6) for v in res[1][1]]),
                sig="again:%s:%s" % (kind, mode), repro=dict(kind=kind, d=d, mode=mode, second=second, adapt=s.linear_model_learning.basis_adaptation))


def dmrg(ctx, rng):
    d = int(rng.randint(3, 5))
    s, truth = a_learner(rng, d, "tree", 2)
    typ = ["dmrg", "dmrg", "dmrg_low_rank"][rng.randint(3)]
    exactly = bool(rng.rand() < 0.4)
    top = int(rng.randint(2, 4))
    s.rank_adaptation = True
    s.rank_adaptation_options.update({"type": typ, "max_rank": top})
    if not exactly:
        _, x, y, xt, yt = data(rng, d, 1, int(rng.randint(60, 150)))
        s.training_data, s.test_data = [x, y], [xt, yt]
        if rng.rand() < 0.5:
            s.initialization_type, s.initial_guess = "random", None
    s.test_error = True
    s.error_estimation = bool(rng.rand() < 0.4)
    random, its = bool(rng.rand() < 0.3), int(rng.randint(1, 5))
    ta = bool(not exactly and rng.rand() < 0.3)
    s.tree_adaptation = ta
    # nothing is lost in the truncations: the risk never increases
    mono = bool(typ == "dmrg" and not ta and rng.rand() < 0.5)
    if mono:
        s.rank_adaptation_options["max_rank"] = top = 100
    extra = rng.rand()
    if extra < 0.25:
        s.rank_adaptation_options["post_alternating_minimization"] = True
    elif extra < 0.5 and not exactly and not mono:
        s.linear_model_learning.basis_adaptation = s.error_estimation = True
    elif extra < 0.6 and typ == "dmrg_low_rank":
        s.rank_adaptation_options["model_selection_type"] = "test_error"
    if ta:
        s.tree_adaptation_options["tolerance"] = 1e-3
    s.alternating_minimization_parameters.update({"max_iterations": its, "random": random, "stagnation": float(rng.choice([1e-6, 0.05]))})
    s.tolerance["on_error"] = 1e-8 if exactly else 1e-13 if mono else float(rng.choice([1e-6, 1e-2]))
    frame = framed(s)
    sc = 10 ** 6 / float(np.max(np.abs(s.training_data[1])))
    yt = s.test_data[1]

    def out(res):
        f, o = res
        d = project(s, res, sc, frame)
        Ht = s.bases.eval(s.test_data[0])
        d.pop("visits")
        H = s.bases.eval(s.training_data[0])
        y = s.training_data[1]
        return dict(d, risk=[vp.fix(min(np.sum((predict(g, H) - y) ** 2) / np.sum(y ** 2), 1000.0), 10 ** 6) for g in o["iterates"]], ranks=[[int(v) for v in g.tensor.ranks] for g in o["iterates"]],
                    fT=vp.fix(min(np.linalg.norm(predict(f, Ht) - yt) / np.linalg.norm(yt), 1000.0), 10 ** 6))

    ctx.observe("dmrg", s.solve, out, sig="dmrg:%s%s%s" % (typ, ":exact" if exactly else "", ":tree" if ta else ""), repro=dict(d=d, typ=typ, top=top, its=its, random=random, extra=round(extra, 2)),
                sweeps=its, maxrank=top, truth=bool(exactly and typ == "dmrg"), tree=ta, mono=mono)


def best_risk(g, H, y):
    """Least risk among the functions with the directions of g and free weights."""
    A = np.ones((y.size, len(g.tensor.core.data)))
    for V, E in zip(g.tensor.space, H):
        A *= E @ V
    w = np.linalg.lstsq(A, y, rcond=None)[0]
    return np.sum((A @ w - y) ** 2) / np.sum(y ** 2)


def greedy(ctx, rng, adapt=False):
    d = int(rng.randint(2, 5))
    bases, x, y, xt, yt = data(rng, d, int(rng.randint(1, 3)), int(rng.randint(40, 80)))
    s = common(tensap.CanonicalTensorLearning(d, tensap.SquareLossFunction()), bases, x, y, xt, yt, rng)
    s.algorithm = "greedy"
    if adapt:
        s.linear_model_learning.basis_adaptation = True
    s.rank = rank = int(rng.randint(1, 5))
    s.initialization_type = ["random", "ones", "mean"][rng.randint(3)]
    s.error_estimation = bool(rng.rand() < 0.5)
    s.test_error = bool(rng.rand() < 0.6)
    s.alternating_minimization_parameters["max_iterations"] = int(rng.randint(1, 6))
    frame = framed(s)
    sc = 10 ** 6 / float(np.max(np.abs(y)))
    H, Ht = bases.eval(x), bases.eval(xt)
    fx = lambda g: [vp.fix(v, sc) for v in predict(g, H)[:12]]
    rel = lambda v: vp.fix(min(float(v), 1000.0), 10 ** 6)

    def out(res):
        f, o = res
        its = o["iterates"]
        return dict(I=[fx(g) for g in its], f=fx(f), ranks=[len(g.tensor.core.data) for g in its], risk=[rel(np.sum((predict(g, H) - y) ** 2) / np.sum(y ** 2)) for g in its], best=[rel(best_risk(g, [np.asarray(e) for e in H], y)) for g in its],
                    sel=int(o["selected_iterate"]) + 1 if "selected_iterate" in o else len(its), E=[rel(v) for v in o.get("errors", [])], est=s.error_estimation, test=s.test_error,
                    T=[rel(v) for v in o["test_error_iterations"]], iterT=[rel(s.loss_function.test_error(tensap.FunctionalTensor(g.tensor, Ht), [xt, yt])) for g in its] if s.test_error else [],
                    terr=rel(o["test_error"]) if s.test_error else 0, frame=frame())

    ctx.observe("greedy", s.solve, out, sig="greedy:%s%s" % (s.initialization_type, ":adapt" if adapt else ""), repro=dict(d=d, rank=rank, adapt=adapt, init=s.initialization_type), rank=rank)


def run(ctx):
    ctx.model("AltMinSpec", ["OneRecordPerSweep", "LastIsReturned", "Reverted", "AllVisited", "Replayed"], properties=["Terminates", "Monotone"], spec="Spec",
              constants=["PARS = 2", "SWEEPS = 2", "VALS = {1, 3}", "ESTS = {2, 7}"])
    if not ctx.quick:
        ctx.model("AltMinSpec", ["OneRecordPerSweep", "LastIsReturned", "Reverted", "AllVisited", "Replayed"],
                  constants=["PARS = 2", "SWEEPS = 3", "VALS = {1, 3}", "ESTS = {2}"])
    cases = ctx.generate("AltMinSpec", ["PARS = 2", "SWEEPS = 2", "VALS = {1, 3}", "ESTS = {2}"])
    rng = ctx.sub_rng("script")
    cases = [cases[i] for i in rng.permutation(len(cases))[:ctx.n(300, 3000)]]
    for p in (1, 3, 4):
        cases += ctx.generate("AltMinSpec", ["PARS = %d" % p, "SWEEPS = 5", "VALS = {1, 2, 3, 9}", "ESTS = {1, 2, 7}"], init="SimInit", next_="SimNext", simulate=ctx.n(300, 3000), depth=5 * p + 3)
    for c in cases:
        scripted(ctx, c, rng)
    rng = ctx.sub_rng("tree")
    for k in range(ctx.n(60, 500)):
        real_tree(ctx, rng, density=k % 5 == 4)
    rng = ctx.sub_rng("canonical")
    for _ in range(ctx.n(40, 350)):
        real_canonical(ctx, rng)
    rng = ctx.sub_rng("exact")
    for k in range(ctx.n(40, 350)):
        exact(ctx, rng, ["tree", "canonical"][k % 2])
    rng = ctx.sub_rng("again")
    for _ in range(ctx.n(24, 220)):
        again(ctx, rng)
    rng = ctx.sub_rng("dmrg")
    for _ in range(ctx.n(40, 300)):
        dmrg(ctx, rng)
    rng = ctx.sub_rng("greedy")
    for _ in range(ctx.n(20, 220)):
        greedy(ctx, rng)
    rng = ctx.sub_rng("greedy_adapt")
    for _ in range(ctx.n(16, 160)):
        greedy(ctx, rng, adapt=True)
    rng = ctx.sub_rng("init")
    for _ in range(ctx.n(120, 1500)):
        starting(ctx, rng)
    rng = ctx.sub_rng("path")
    for _ in range(ctx.n(250, 3000)):
        patterns(ctx, rng)
