"""C13: generated multi-index sets contain exactly what they define."""
import numpy as np
import tensap

from C12 import D, MI


def o(v):
    assert isinstance(v, MI), "not a MultiIndices"
    return {"out": D(v)}


def pname(p):
    return {0: "inf", -2: "1/2"}.get(p, str(p))


def pval(p):
    return np.inf if p == 0 else (0.5 if p == -2 else p)


def norms(ctx, d, p, m, den=1):
    """den: denominator of the bound."""
    mm = m if den == 1 else m / den
    ctx.observe("norm", lambda: MI.with_bounded_norm(d, pval(p), mm), o, sig="with_bounded_norm(%s%s)" % (pname(p), "" if den == 1 else ",real bound"),
                d=d, p=p, m=m, den=den)


def weighted(ctx, d, p, m, w, den=1):
    ww = [t / den for t in w] if den > 1 else list(w)
    mm = m / den if den > 1 else m
    ctx.observe("wnorm", lambda: MI.with_bounded_weighted_norm(d, pval(p), mm, ww), o, sig="with_bounded_weighted_norm(%s)" % pname(p), d=d, p=p, m=m, w=w)


def run(ctx):
    ctx.model("GenSpec", ["Inside", "Closed", "Exact", "Same"], constants=["MD = %d" % ctx.n(2, 3), "MB = %d" % ctx.n(3, 4), "MW = 2"], init="GenInit", next_="GenNext")
    top = ctx.n(1, 2)
    lim = {1: 9 * top, 2: 7 * top, 3: 5 + top, 4: 3 + top, 5: 2 + top}
    for d in range(1, 5):
        for m in range(0, lim[d] + 1):
            for p in (0, 1, 2, 3, 4, 5):
                if p == 5 and m > 17 or (p == 4 and m > 30):
                    continue
                if p == 0 and (m + 1) ** d > 4000:
                    continue
                norms(ctx, d, p, m)
    for d in range(1, 4):
        for m in range(1, 2 * lim[d], 2):
            for p in (0, 1, 2, 3):
                norms(ctx, d, p, m, den=2)
            if d <= 2:
                norms(ctx, d, -2, m, den=2)
    for m in range(0, 40):
        norms(ctx, 2, -2, m, den=1)
    rng = ctx.sub_rng("weighted")
    for _ in range(ctx.n(250, 3000)):
        d = int(rng.randint(1, 5))
        m = int(rng.randint(0, {1: 12, 2: 12, 3: 8, 4: 6}[d]))
        weighted(ctx, d, int(rng.choice([0, 1, 2, 3, 5])), m, [int(v) for v in rng.randint(1, 4, d)], den=int(rng.choice([1, 1, 2, 4, 3, 10])))
    for d in range(1, 5):
        for m in range(0, {1: 12, 2: 11, 3: 9, 4: 6}[d] * top):
            if (m + 1) ** d < 9000:
                ctx.observe("cross", lambda: MI.hyperbolic_cross_set(d, m), o, sig="hyperbolic_cross_set", d=d, m=m)
    for _ in range(ctx.n(120, 1500)):
        d = int(rng.randint(1, 5))
        m = int(rng.randint(0, {1: 16, 2: 14, 3: 10, 4: 6}[d]))
        w = [int(v) for v in rng.randint(1, 4, d)]
        arg = rng.randint(3)
        ww = list(w) if arg == 0 else np.array(w) if arg == 1 else np.array(w, dtype=float)
        ctx.observe("wcross", lambda: MI.weighted_hyperbolic_cross_set(d, m, ww), o, sig="weighted_hyperbolic_cross_set", d=d, m=m, w=w)
    for _ in range(ctx.n(80, 800)):
        d = int(rng.randint(1, 4))
        m = int(rng.randint(0, {1: 16, 2: 9, 3: 5}[d]))
        w = [int(v) for v in rng.randint(1, 6, d)]
        ww = [v / 2 for v in w]
        arg = rng.rand() < 0.5
        ctx.observe("rcross", lambda: MI.weighted_hyperbolic_cross_set(d, m, ww if arg else np.array(ww)), o, sig="weighted_hyperbolic_cross_set(real)", d=d, m=m, w=w)
    for d in range(1, 6):
        for m in range(0, d + 1):
            for p in range(0, {1: 8, 2: 6, 3: 5, 4: 4, 5: 3}[d]):
                ctx.observe("loworder", lambda: MI.low_order_interactions(d, p, m), o, sig="low_order_interactions", d=d, m=m, top=[p] * d)
    for _ in range(ctx.n(60, 600)):
        d = int(rng.randint(1, 5))
        t = [int(v) for v in rng.randint(0, 4, d)]
        m = int(rng.randint(0, d + 1))
        ctx.observe("loworder", lambda: MI.low_order_interactions(d, t, m), o, sig="low_order_interactions(list)", d=d, m=m, top=t)
    for _ in range(ctx.n(150, 1500)):
        d = int(rng.randint(1, 6))
        t = [int(v) for v in rng.randint(0, 4, d)]
        m = int(rng.choice([0, 0, 1, 2]))
        arg = np.array(t) if rng.rand() < 0.5 else list(t)
        ctx.observe("box", lambda: MI.bounded_by(arg, m), o, sig="bounded_by", d=d, m=m, top=t)
    for _ in range(ctx.n(250, 3000)):
        k = int(rng.randint(1, 4))
        sets, args = [], []
        for _ in range(k):
            dk = int(rng.choice([1, 1, 1, 2]))
            s = sorted({tuple(int(v) for v in rng.randint(0, 4, dk)) for _ in range(int(rng.randint(1, 4)))})
            s = [list(s[j]) for j in rng.permutation(len(s))]
            sets.append(s)
            kind = rng.randint(4)
            a = np.array(s)
            args.append([v[0] for v in s] if dk == 1 and kind == 0 else a[:, 0] if dk == 1 and kind == 1 else MI(a) if kind == 2 else a)
        ctx.observe("product", lambda: MI.product_set(args), o, sig="product_set", sets=sets)
        ctx.observe("product", lambda: MI.product_set(args), o, sig="product_set(again)", sets=sets)
        if k >= 2 and all(isinstance(a, MI) for a in args):
            def chain():
                r = args[0]
                for a in args[1:]:
                    r = r.product(a)
                return r
            ctx.observe("product", chain, o, sig="product", sets=sets)
        # documented: a set of indices and a power
        one = [int(v) for v in rng.permutation(5)[: int(rng.randint(1, 4))]]
        d = int(rng.randint(1, 4))
        if len(one) ** d <= 40:
            full = [[[v] for v in one]] * d
            ctx.observe("product", lambda: MI.product_set(list(one), d), o, sig="product_set(1-D list, d)", sets=full)
            ctx.observe("product", lambda: MI.product_set(np.array(one), d), o, sig="product_set(1-D array, d)", sets=full)
            ctx.observe("product", lambda: MI.product_set([list(one)], d), o, sig="product_set([set], d)", sets=full)
