"""C23: the adaptive learning loop returns the iterate it reports.

Scripted sub-algorithms (a local solver, a stagnation criterion, a tree
adaptation and a rank selection that answer what TLC's behaviour of AdaptSpec
says) are plugged into the real loop through the public extension points of
TensorLearning; the outcome is judged against the specification.  Runs of the
real learners check that the reported scores are those of the iterates."""
from copy import deepcopy

import numpy as np
import tensap

import vp

INF, NAN = 2147483646, 2147483645


def val(x):
    return float("inf") if x == INF else float("nan") if x == NAN else float(x)


def back(x):
    x = np.asarray(x, dtype=float)
    if x.size != 1:
        raise ValueError("not a number")
    x = float(np.ravel(x)[0])
    return INF if np.isposinf(x) else NAN if np.isnan(x) else vp.to_int(x)


TREE = tensap.DimensionTree.trivial(2)


def function(tag, bases):
    """The function named tag: the constant `tag` (a rank-one tree tensor)."""
    one = [tensap.FullTensor(np.ones((1, 1))) for _ in range(2)]
    nodes = np.empty(3, dtype=object)
    for i, leaf in enumerate(TREE.dim2ind):
        nodes[leaf - 1] = one[i]
    nodes[TREE.root - 1] = tensap.FullTensor(np.full((1, 1), float(tag)))
    return tensap.FunctionalTensor(tensap.TreeBasedTensor(list(nodes), TREE), bases)


def tag(f):
    t = f.tensor if isinstance(f, tensap.FunctionalTensor) else f
    return vp.to_int(np.ravel(np.asarray(t.full().data if not isinstance(t, tensap.FullTensor) else t.data))[0])


class ScriptLoss(tensap.SquareLossFunction):
    def __init__(self, script):
        super().__init__()
        self.script = script

    def test_error(self, fun, sample):
        k = tag(fun)
        return val(self.script[k - 101]["t2"] if k > 100 else self.script[k - 1]["t"])


class Local:
    """A local solver that answers what the script says."""

    def __init__(self, owner):
        self.owner = owner
        self.tree_adaptation = owner.tree_adaptation
        self.rank = None
        self.initial_guess = None
        self.initialization_type = "none"

    def solve(self):
        own = self.owner
        k = len(own.log) + 1
        own.log.append((0 if not np.isscalar(self.rank) else int(self.rank), 0 if self.initial_guess is None else tag(self.initial_guess)))
        out = {"error": val(own.script[k - 1]["e"])} if own.opt["hasErr"] else {}
        return function(k, self.bases_eval), out


class Scripted(tensap.TensorLearning):
    def __init__(self, opt, script):
        super().__init__(ScriptLoss(script))
        self.opt = opt
        self.script = script
        self.log = []
        self.order = 2
        self.rank_adaptation = True
        self.display = False
        self.rank = opt["rank"]
        self._warnings = {"orthonormality_warning_display": False, "empty_bases_warning_display": False}

    def __deepcopy__(self, memo):
        return self

    def local_solver(self):
        return Local(self)

    def stagnation_criterion(self, f, f0):
        k = tag(f)
        return val(self.script[(k - 1) % 100]["stag"])

    def adapt_tree(self, f, cv_error, test_error, output, *args):
        k = tag(f)
        output["adapted_tree"] = bool(self.script[k - 1]["ad"])
        if output["adapted_tree"]:
            f.tensor = function(100 + k, self.bases_eval).tensor
        return self, f, output

    def new_rank_selection(self, f):
        return 1000 + tag(f), np.array([1]), deepcopy(f.tensor)

    def initial_guess_new_rank(self, s_local, f, new_rank):
        s_local.initial_guess = f
        return s_local

    def initialize(self):
        raise NotImplementedError

    pre_processing = randomize_exploration_strategy = prepare_alternating_minimization_system = initialize
    set_parameter = final_display = adaptation_display = initialize


def scripted(ctx, case, fun, store):
    o, sc = case["o"], case["sc"]

    def run():
        s = Scripted(o, sc)
        h = tensap.FunctionalBases.duplicate(tensap.PolynomialFunctionalBasis(tensap.LegendrePolynomials(), range(1)), 2)
        x = np.zeros((2, 2))
        if fun:
            s.bases = h
        else:
            s.bases_eval = h.eval(x)
            s.bases_eval_test = h.eval(x)
        s.training_data = [x, np.zeros(2)]
        s.test_data = [x, np.zeros(2)]
        s.test_error = o["hasTest"]
        s.error_estimation = o["hasErr"]
        s.store_iterates = store
        s.model_selection = o["msel"] != "none"
        s.model_selection_options["type"] = o["msel"]
        s.tree_adaptation = o["tree"]
        s.tree_adaptation_options["force_rank_adaptation"] = o["force"]
        s.rank_adaptation_options.update({"max_iterations": o["maxIt"], "early_stopping": o["early"], "early_stopping_factor": 10})
        s.tolerance = {"on_error": 2, "on_stagnation": 2}
        return s, s.solve()

    def out(res):
        s, (f, output) = res
        b = s.bases if fun else s.bases_eval
        return dict(solves=len(s.log), ranks=[a[0] for a in s.log], guess=[a[1] for a in s.log],
                    flag=int(output["flag"]), E=[back(v) for v in output.get("error_iterations", [])],
                    T=[back(v) for v in output.get("test_error_iterations", [])],
                    I=[tag(v) for v in output.get("iterates", [])], f=tag(f),
                    sel=int(output["selected_model_number"]) + 1 if "selected_model_number" in output else 0,
                    error=back(output["error"]) if "error" in output else 0,
                    terr=back(output["test_error"]) if "test_error" in output else 0,
                    store=bool(store or s.model_selection or o["msel"] != "none"),
                    bases=bool(f.evaluated_bases != fun and (f.bases is b or not fun)))

    ctx.observe("script", run, out, sig="script", repro=dict(o=o, sc=sc, fun=fun, store=store), o=o, sc=sc)


# --------------------------------------------------------------- real learners
def learner(rng, kind, d):
    deg = int(rng.randint(1, 4))
    bases = tensap.FunctionalBases.duplicate(tensap.PolynomialFunctionalBasis(tensap.LegendrePolynomials(), range(deg + 1)), d)
    n = int(rng.randint(40, 90))
    x, xt = rng.uniform(-1, 1, (n, d)), rng.uniform(-1, 1, (30, d))
    c = rng.randint(-3, 4, d + 2)

    def f(z):
        return 1 / (3 + z.mean(1)) + z @ c[:d] + c[d] * z[:, 0] * z[:, -1] + c[d + 1] * np.prod(z, 1) + 5
    loss = tensap.SquareLossFunction()
    if kind == "canonical":
        s = tensap.CanonicalTensorLearning(d, loss)
    else:
        tree = getattr(tensap.DimensionTree, kind)(d)
        active = np.full(tree.nb_nodes, True)
        for leaf in tree.dim2ind:
            active[leaf - 1] = rng.rand() < 0.7 or d == 2
        s = tensap.TreeBasedTensorLearning(tree, active, loss)
    s.bases = bases
    s.training_data = [x, f(x) + 0.01 * rng.randn(n)]
    s.test_data = [xt, f(xt)]
    s.test_error = True
    s.display = False
    s._warnings = {"orthonormality_warning_display": False, "empty_bases_warning_display": False}
    s.linear_model_learning.basis_adaptation = bool(rng.rand() < 0.3)
    return s


def real(ctx, rng, kind):
    d = int(rng.randint(2, 5))
    s = learner(rng, kind, d)
    s.rank_adaptation = True
    its = int(rng.randint(1, 6))
    s.rank_adaptation_options.update({"max_iterations": its, "early_stopping": bool(rng.rand() < 0.5), "early_stopping_factor": 2})
    s.error_estimation = bool(rng.rand() < 0.5)
    s.linear_model_learning.error_estimation = s.error_estimation
    msel = ["none", "test_error", "cv_error"][rng.randint(3)]
    s.model_selection = msel != "none"
    s.model_selection_options["type"] = msel if msel != "none" else "test_error"
    s.alternating_minimization_parameters["max_iterations"] = int(rng.randint(2, 8))
    if kind != "canonical":
        s.tree_adaptation = bool(rng.rand() < 0.4)
        s.tree_adaptation_options["tolerance"] = 1e-8
        s.tree_adaptation_options["max_iterations"] = 10
    train, test = deepcopy(s.training_data), deepcopy(s.test_data)
    bt = s.bases.eval(test[0])

    def out(res):
        f, output = res
        score = lambda g: s.loss_function.test_error(tensap.FunctionalTensor(g.tensor, bt), test)
        sc = 10 ** 6 / max(1.0, float(np.max(output["test_error_iterations"])))
        fx = lambda v: vp.fix(float(v), sc)
        rk = lambda g: len(g.tensor.core.data) if kind == "canonical" else 0
        return dict(T=[fx(v) for v in output["test_error_iterations"]], iterT=[fx(score(g)) for g in output["iterates"]],
                    E=[fx(min(v, 100.0)) for v in output.get("error_iterations", [])], fT=fx(score(f)),
                    terr=fx(output["test_error"]), error=fx(min(output.get("error", 0.0), 100.0)),
                    ranks=[rk(g) for g in output["iterates"]], sel=int(output.get("selected_model_number", -1)) + 1,
                    frame=bool(all(np.array_equal(a, b) for a, b in zip(train, s.training_data)) and all(np.array_equal(a, b) for a, b in zip(test, s.test_data))))

    ctx.observe("run", lambda: s.solve(), out, sig="run:" + kind, repro=dict(kind=kind, d=d, its=its, msel=msel), maxIt=its, msel=msel, canonical=kind == "canonical")


def run(ctx):
    big = "%d, %d}" % (INF, NAN)
    ctx.model("AdaptSpec", ["Kept", "Returned", "Bounded", "Reason", "NoBlowUp", "Alternate", "Selectable", "Replayed"], properties=["Terminates"],
              spec="Spec", constants=["L = 2", "ERRS = {1, 5, 70, %s" % big, "TERRS = {1, 5, 70, %d}" % NAN], extra_cfg="VIEW View")
    ctx.model("AdaptSpec", ["Kept", "Returned", "Bounded", "Reason", "NoBlowUp", "Alternate", "Selectable", "Replayed"],
              constants=["L = %d" % ctx.n(3, 4), "ERRS = {1, 5, %d}" % INF, "TERRS = {5, 70}"] if ctx.quick else ["L = 3", "ERRS = {1, 5, 70, %s" % big, "TERRS = {1, 5, 70, %d}" % NAN], extra_cfg="VIEW View")
    cases = ctx.generate("AdaptSpec", ["L = 2", "ERRS = {1, 5, %d}" % INF, "TERRS = {5, 70}"])
    rng = ctx.sub_rng("script")
    if ctx.quick:
        cases = [cases[i] for i in rng.permutation(len(cases))[:400]]
    cases += ctx.generate("AdaptSpec", ["L = 6", "ERRS = {1, 3, 5, 30, 40, 70, 500, %s" % big, "TERRS = {1, 4, 5, 6, 30, 50, 70, %s" % big],
                          init="SimInit", next_="SimNext", simulate=ctx.n(1500, 12000), depth=9)
    for c in cases:
        scripted(ctx, c, bool(rng.rand() < 0.6), bool(rng.rand() < 0.7))
    rng = ctx.sub_rng("real")
    for k in range(ctx.n(40, 400)):
        real(ctx, rng, ["canonical", "balanced", "linear", "trivial"][k % 4])
