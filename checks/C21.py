"""C21: penalised model selection returns true minimisers."""
from fractions import Fraction

import numpy as np
import tensap

import vp

SHAPES = [("identity", lambda x: x), ("square", lambda x: x ** 2), ("affine", lambda x: 3 * x + 1),
          ("half", lambda x: x // 2), ("float", lambda x: 2.0 * x), ("sqrt", lambda x: np.sqrt(x * x))]


def rat(x):
    f = Fraction(float(x)).limit_denominator(4000)
    if abs(float(f) - float(x)) > 1e-9 * max(1, abs(float(x))):
        return [vp.NANV, 1]
    return [f.numerator, f.denominator]


def family(ctx, rng, comp, risk, shape, gap=None, types=0):
    name, pen = SHAPES[shape]
    ms = tensap.ModelSelection()
    mk = [np.array, list, lambda v: np.array(v, dtype=float)][types]
    ms.data = {"complexity": mk(comp), "empirical_risk": mk(risk)}
    if shape or rng.rand() < 0.5:
        ms.pen_shape = pen
    fam = [{"pen": int(pen(np.array(c))), "risk": int(r)} for c, r in zip(comp, risk)]
    lams = [[0, 1]] + [[int(rng.randint(0, 9)), int(rng.choice([1, 2, 4, 8]))] for _ in range(rng.randint(1, 5))]

    def frame():
        return {"compafter": vp.ilist(ms.data["complexity"]), "riskafter": vp.ilist(ms.data["empirical_risk"])}

    vals = [a / b for a, b in lams]
    ctx.observe("select", lambda: ms.m_lambda(vals if rng.rand() < 0.5 else np.array(vals)),
                lambda v: dict(val=[int(k) + 1 for k in v], **frame()), fam=fam, comp=comp, lam=lams, sig="m_lambda." + name)
    ctx.observe("select", lambda: ms.m_lambda(vals[-1]), lambda v: dict(val=[int(k) + 1 for k in v], **frame()),
                fam=fam, comp=comp, lam=lams[-1:], sig="m_lambda.scalar." + name)
    ctx.observe("path", ms.lambda_path, lambda v: dict(path=[rat(x) for x in np.atleast_1d(v[0])], mpath=[int(k) + 1 for k in np.atleast_1d(v[1])], **frame()),
                fam=fam, comp=comp, sig="lambda_path." + name)
    if gap is None:
        gap = [2, 1]
    else:
        ms.gap_factor = gap[0] / gap[1]

    def slope():
        if rng.rand() < 0.3 and len(set(comp)) > 1:
            return ms.slope_heuristic(*ms.lambda_path())
        return ms.slope_heuristic()

    ctx.observe("slope", slope, lambda v: dict(lam=rat(v[0]), val=int(np.ravel(v[1])[0]) + 1, path=[rat(x) for x in np.atleast_1d(v[2])], **frame()),
                fam=fam, comp=comp, gap=gap, sig="slope_heuristic." + name)


def run(ctx):
    n, p, r = ctx.n((3, 3, 3), (4, 3, 3))
    ctx.model("SelSpec", ["Minimiser", "Selected", "Ordered", "Sound", "Complete", "Constant"], constants=["N = %d" % n, "PMAX = %d" % p, "RMAX = %d" % r])
    rng = ctx.sub_rng("families")
    cases = ctx.generate("SelSpec", ["N = 3", "PMAX = 3", "RMAX = 3"])
    cases = [c for k, c in enumerate(cases) if k % ctx.n(4, 1) == 0 or len(c) < 3]
    for c in cases:
        family(ctx, rng, [m["pen"] for m in c], [m["risk"] for m in c], 0)
    for _ in range(ctx.n(900, 15000)):
        k = int(rng.randint(1, 9))
        top = int(rng.choice([4, 12]))
        comp = rng.randint(0 if rng.rand() < 0.2 else 1, top, k).tolist()
        if rng.rand() < 0.3:
            comp.sort()
        if rng.rand() < 0.4:     # decreasing risks, many aligned models
            s = rng.randint(1, 4)
            risk = [int(max(0, 30 - s * c + rng.choice([0, 0, 0, 1, -1, 5]))) for c in comp]
        else:
            risk = rng.randint(0, rng.choice([3, 20]), k).tolist()
        gap = None if rng.rand() < 0.5 else [int(rng.randint(1, 6)), int(rng.choice([1, 2]))]
        family(ctx, rng, comp, risk, int(rng.randint(len(SHAPES))), gap, int(rng.randint(3)))
