------------------------------ MODULE C19Trace ------------------------------
EXTENDS VBase, TraceBase
L == INSTANCE LawSpec WITH A <- 1, S <- 1, D <- 1, start <- <<>>, law <- <<>>, hist <- <<>>
Same(v, q) == IF q[2] > 20000 THEN v[2] > 0 ELSE v = q
Near(a, b, tol) == AbsI(a - b) <= tol
(* normal law: 10^6 Phi(z) and 10^6 phi(z), z = 0..4                         *)
PhiT == <<500000, 841345, 977250, 998650, 999968>>
DenT == <<398942, 241971, 53991, 4432, 134>>
Phi(z) == IF z >= 0 THEN PhiT[z + 1] ELSE 1000000 - PhiT[1 - z]
Den(z) == DenT[AbsI(z) + 1]
(* one-dimensional observations of a law                                     *)
BadObs(M, o, strict) ==
    (IF o.mass = 1 /\ o.ndim = 1 THEN {} ELSE {"mass"})
    \cup (IF Same(o.mean, L!Mean(M)) THEN {} ELSE {"mean"})
    \cup (IF Same(o.var, L!Var(M)) /\ Same(o.std2, L!Var(M)) THEN {} ELSE {"variance"})
    \cup (IF M.kind = "normal" \/ (o.sup = <<L!Lower(M), L!Upper(M)>> /\ o.tsup = o.sup /\ o.ext = o.sup) THEN {} ELSE {"support"})
    \cup (IF M.kind # "normal" \/ (o.sup[1][2] = 0 /\ o.sup[2][2] = 0 /\ o.sup[1][1] = -1 /\ o.sup[2][1] = 1) THEN {} ELSE {"support"})
    \cup (IF M.kind # "normal" THEN (IF \A i \in 1..Len(o.x) : Same(o.cdf[i], L!Cdf(M, o.x[i])) THEN {} ELSE {"cdf"})
          ELSE IF \A i \in 1..Len(o.z) : Near(o.ncdf[i], Phi(o.z[i]), 2) THEN {} ELSE {"cdf"})
    \cup (IF M.kind # "normal" THEN (IF \A i \in 1..Len(o.p) : L!IsQuant(M, o.p[i], o.icdf[i], strict) THEN {} ELSE {"icdf"})
          ELSE IF \A i \in 1..Len(o.z) : Same(o.nicdf[i], RAdd(M.m, RMul(RInt(o.z[i]), M.s))) THEN {} ELSE {"icdf"})
    \cup (IF M.kind = "uniform" => \A i \in 1..Len(o.x) : Same(o.pdf[i], L!Pdf(M, o.x[i])) THEN {} ELSE {"pdf"})
    \cup (IF M.kind = "normal" => \A i \in 1..Len(o.z) : Near(o.npdf[i], Den(o.z[i]), 2) THEN {} ELSE {"pdf"})
BadWalk(r) == LET M == L!Play(r.start, r.hist)
                  strict == r.hist = <<>> /\ r.dyadic
              IN BadObs(M, r.obs, strict)
                 \cup (IF \A i \in 1..Len(r.moments) : \A k \in 1..Len(r.moments[i].ind) : Same(r.moments[i].val[k], L!Moment(M, r.moments[i].ind[k])) THEN {} ELSE {"moment"})
                 \cup (IF r.kept THEN {} ELSE {"operand_changed"})
(* components of vectors and product measures                                *)
BadVector(r) ==
    LET Want == CASE r.how = "sub" -> Sel(r.laws, r.ind) [] OTHER -> r.laws
        d == Len(Want)
        Prod(f(_)) == FoldLeft(LAMBDA acc, k: RMul(acc, f(k)), <<1, 1>>, Iota(d))
        AllU == \A k \in 1..d : Want[k].kind = "uniform"
    IN (IF r.size = d THEN {} ELSE {"size"})
       \cup (IF r.size # d THEN {} ELSE
              (IF \A k \in 1..d : Same(r.mean[k], L!Mean(Want[k])) THEN {} ELSE {"mean"})
              \cup (IF r.vec => \A k \in 1..d : Same(r.var[k], L!Var(Want[k])) /\ Same(r.std2[k], L!Var(Want[k])) THEN {} ELSE {"variance"})
              \cup (IF r.mass = 1 THEN {} ELSE {"mass"})
              \cup (IF \A k \in 1..d : r.sup[k] = <<L!Lower(Want[k]), L!Upper(Want[k])>> /\ r.tsup[k] = r.sup[k] THEN {} ELSE {"support"})
              \cup (IF r.vec => \A i \in 1..Len(r.x) : Same(r.cdf[i], Prod(LAMBDA k: L!Cdf(Want[k], r.x[i][k]))) THEN {} ELSE {"cdf"})
              \cup (IF r.vec /\ AllU => \A i \in 1..Len(r.x) : Same(r.pdf[i], Prod(LAMBDA k: L!Pdf(Want[k], r.x[i][k]))) THEN {} ELSE {"pdf"})
              \cup (IF r.n = Len(r.sample) /\ \A i \in 1..Len(r.sample) : Len(r.sample[i]) = d /\ \A k \in 1..d :
                        RLe(L!Lower(Want[k]), r.sample[i][k]) /\ RLe(r.sample[i][k], L!Upper(Want[k]))
                        /\ (Want[k].kind = "discrete" => r.sample[i][k] \in RangeOf(Want[k].x)) THEN {} ELSE {"sample"}))
(* y = F_Y^{-1}(F_X(x))                                                      *)
TransferOK(X, Y, x, y) ==
    IF X.kind = "normal" THEN Same(y, RAdd(Y.m, RDiv(RMul(Y.s, RSub(x, X.m)), X.s)))
    ELSE L!IsQuant(Y, L!Cdf(X, x), y, FALSE)
BadTransfer(r) == IF Len(r.y) = Len(r.x) /\ \A i \in 1..Len(r.x) : Len(r.y[i]) = Len(r.lx) /\ \A k \in 1..Len(r.lx) :
                        TransferOK(r.lx[k], r.ly[k], r.x[i][k], r.y[i][k]) THEN {} ELSE {"transfer"}
BadEq(r) == LET e == r.xs = r.ys IN
            (IF r.eq = e THEN {} ELSE {"equal"}) \cup (IF r.ne = ~e THEN {} ELSE {"different"})
BadGrid(r) == IF Len(r.grids) = Len(r.laws) /\ \A k \in 1..Len(r.laws) :
                    /\ Len(r.grids[k]) = r.n[k] + 1
                    /\ r.grids[k][1] = L!Lower(r.laws[k]) /\ r.grids[k][r.n[k] + 1] = L!Upper(r.laws[k])
                    /\ \A j \in 1..r.n[k] - 1 : L!IsQuant(r.laws[k], Rat(j, r.n[k]), r.grids[k][j + 1], FALSE) THEN {} ELSE {"grid"}
(* numbers of sample points in each of the n cells of equal probability      *)
BadLhs(r) == IF \A k \in 1..Len(r.count) : r.count[k] = [j \in 1..r.n |-> 1] THEN {} ELSE {"strata"}
(* empirical frequencies, 4 quartile cells or the atoms                      *)
BadSample(r) == (IF r.shape = <<r.n>> THEN {} ELSE {"shape"})
                \cup (IF SumSeq(r.count) = r.n /\ \A j \in 1..Len(r.count) : AbsI(r.count[j] * r.tot - r.n * r.prob[j]) <= 6 * r.tot * r.dev THEN {} ELSE {"frequencies"})
BadMulti(r) == (IF r.size = Len(r.sets) THEN {} ELSE {"size"})
               \cup (IF r.size = Len(r.sets) /\ \A k \in 1..r.size : r.values[k] = r.sets[k] /\ \A j \in 1..Len(r.sets[k]) : r.prob[k][j] = <<1, Len(r.sets[k])>> THEN {} ELSE {"law"})
               \cup (IF r.kept THEN {} ELSE {"operand_changed"})
(* (y - mean)^2 = (x - mean)^2 / var for the standardised discrete variable  *)
BadStd(r) == LET m == L!Mean(r.law) v == L!Var(r.law) IN
    (IF \A i \in 1..Len(r.y2) : /\ Same(r.y2[i], RDiv(RMul(RSub(r.law.x[i], m), RSub(r.law.x[i], m)), v))
                                /\ r.sign[i] = (IF RSub(r.law.x[i], m)[1] > 0 THEN 1 ELSE IF RSub(r.law.x[i], m)[1] < 0 THEN -1 ELSE 0) THEN {} ELSE {"values"})
    \cup (IF \A i \in 1..Len(r.prob) : r.prob[i] = Rat(r.law.w[i], L!Tot(r.law)) THEN {} ELSE {"weights"})
(* first orthonormal polynomial: (x - mean)^2 / var                          *)
BadPoly(r) == IF Len(r.p1) = Len(r.laws) /\ \A k \in 1..Len(r.p1) : \A i \in 1..Len(r.x[k]) :
                  LET m == L!Mean(r.laws[k]) IN Same(r.p1[k][i], RDiv(RMul(RSub(r.x[k][i], m), RSub(r.x[k][i], m)), L!Var(r.laws[k]))) THEN {} ELSE {"polynomials"}
(* empirical law: density = mean of the kernel densities, distribution       *)
(* function = integral of the density (Simpson), quantile = its inverse      *)
BadKernel(r) ==
    LET n == Len(r.x)
        Simpson(k) == ((r.pdf[2 * k - 1] + 4 * r.pdf[2 * k] + r.pdf[2 * k + 1]) * r.stepn) \div (6 * r.stepd)
    IN (IF \A i \in 1..Len(r.pdf) : Near(r.pdf[i], r.kern[i], 3) THEN {} ELSE {"pdf"})
       \cup (IF \A k \in 1..Len(r.cdf) - 1 : Near(r.cdf[k + 1] - r.cdf[k], Simpson(k), 60) THEN {} ELSE {"cdf_derivative"})
       \cup (IF Near(r.lo, 0, 3) /\ Near(r.hi, 1000000, 3) THEN {} ELSE {"cdf_limits"})
       \cup (IF \A k \in 1..Len(r.cdf) : Near(r.back[k], r.xs[k], 30) THEN {} ELSE {"icdf"})
       \cup (IF r.mean = Rat(SumSeq(r.x), n) THEN {} ELSE {"mean"})
       \cup (IF \A k \in 1..Len(r.cdf) : Near(r.shift[k], r.cdf[k], 3) THEN {} ELSE {"shift"})
       \cup (IF \A k \in 1..Len(r.std) : Near(r.std[k], r.cdf[k], 3) THEN {} ELSE {"standard"})
       \cup (IF \A k \in 1..Len(r.toStd) : Near(r.toStd[k], r.stdx[k], 30) THEN {} ELSE {"transfer"})
       \cup (IF Near(r.unif[1], r.cdf[1], 3) /\ Near(r.unif[2], r.cdf[2], 3) THEN {} ELSE {"transfer_uniform"})
BadLebesgue(r) == (IF r.mass = r.b - r.a /\ r.sup = <<r.a, r.b>> /\ r.tsup = r.sup /\ r.ndim = 1 THEN {} ELSE {"parameters"})
                  \cup (IF r.inside THEN {} ELSE {"sample"})
(* discrete measures in several dimensions                                   *)
BadMeasure(r) == (IF r.mass = SumSeq(r.w) THEN {} ELSE {"mass"})
                 \cup (IF r.ndim = Len(r.x[1]) THEN {} ELSE {"ndim"})
                 \cup (IF \A k \in 1..Len(r.x[1]) : r.lo[k] = MinSeq([i \in 1..Len(r.x) |-> r.x[i][k]]) /\ r.up[k] = MaxSeq([i \in 1..Len(r.x) |-> r.x[i][k]]) THEN {} ELSE {"support"})
                 \cup (IF SumSeq(r.count) = r.n /\ \A i \in 1..Len(r.x) : AbsI(r.count[i] * r.tot - r.n * r.w[i]) <= 6 * r.tot * r.dev THEN {} ELSE {"sample"})
                 \cup (IF r.int = SumTo(Len(r.x), LAMBDA i: r.w[i] * SumSeq(r.x[i])) THEN {} ELSE {"integral"})
(* likelihood: product of the densities                                      *)
BadLik(r) ==
    IF r.law.kind = "uniform"
    THEN IF Same(r.lik, FoldLeft(LAMBDA acc, i: RMul(acc, L!Pdf(r.law, r.x[i])), <<1, 1>>, Iota(Len(r.x)))) THEN {} ELSE {"likelihood"}
    ELSE IF Near(r.near, FoldLeft(LAMBDA acc, i: (acc * (Den(r.z[i]) \div 1000)) \div 1000, 1000000, Iota(Len(r.z))), 3000) THEN {} ELSE {"likelihood"}
BadTrunc(r) == IF r.sup = <<RSub(r.law.m, RMul(RInt(r.k), r.law.s)), RAdd(r.law.m, RMul(RInt(r.k), r.law.s))>> THEN {} ELSE {"truncated_support"}
BadKind(r) == IF r.disc = (r.law.kind = "discrete") /\ ~r.prod /\ ~r.leb /\ r.dm /\ r.npar = r.len /\ r.len = 2 THEN {} ELSE {"kind"}
BadBox(r) == IF Len(r.ok) = Len(r.pts) /\ \A i \in 1..Len(r.pts) : r.ok[i] = (\A k \in 1..Len(r.lo) : r.lo[k] <= r.pts[i][k] /\ r.pts[i][k] <= r.up[k]) THEN {} ELSE {"box"}
StdCdf(M, z) == IF M.kind = "normal" THEN Phi(z) ELSE IF z <= -1 THEN 0 ELSE IF z >= 1 THEN 1000000 ELSE 500000
BadStdVec(r) == (IF r.size = Len(r.laws) /\ \A k \in 1..Len(r.laws) : r.mean[k] = <<0, 1>> THEN {} ELSE {"standard"})
                \cup (IF \A i \in 1..Len(r.z) : Near(r.cdf[i], FoldLeft(LAMBDA acc, k: (acc \div 1000) * (StdCdf(r.laws[k], r.z[i][k]) \div 1000), 1000000, Iota(Len(r.laws))), 5000) THEN {} ELSE {"cdf"})
BadCopula(r) == IF \A i \in 1..Len(r.z) : r.c[i] = FoldLeft(LAMBDA acc, k: RMul(acc, Rat(r.z[i][k] + 2, 4)), <<1, 1>>, Iota(Len(r.z[1]))) THEN
                    (IF r.one THEN {} ELSE {"density"}) ELSE {"copula"}
Bad1(r) == CASE r.op = "lik" -> BadLik(r)
             [] r.op = "trunc" -> BadTrunc(r)
             [] r.op = "kind" -> BadKind(r)
             [] r.op = "box" -> BadBox(r)
             [] r.op = "stdvec" -> BadStdVec(r)
             [] r.op = "copula" -> BadCopula(r)
             [] r.op = "walk" -> BadWalk(r)
             [] r.op = "vector" -> BadVector(r)
             [] r.op = "transfer" -> BadTransfer(r)
             [] r.op = "eq" -> BadEq(r)
             [] r.op = "grid" -> BadGrid(r)
             [] r.op = "lhs" -> BadLhs(r)
             [] r.op = "sample" -> BadSample(r)
             [] r.op = "multi" -> BadMulti(r)
             [] r.op = "std" -> BadStd(r)
             [] r.op = "poly" -> BadPoly(r)
             [] r.op = "kernel" -> BadKernel(r)
             [] r.op = "lebesgue" -> BadLebesgue(r)
             [] r.op = "measure" -> BadMeasure(r)
Bad(r) == IF r.err # "" THEN {"exception"} ELSE Bad1(r)
Chk == Report(vLine, Bad(Recs[vLine]))
=============================================================================
