------------------------------ MODULE C17Trace ------------------------------
EXTENDS VBase, TraceBase
P == INSTANCE PolySpec WITH KMAX <- 1, fam <- "hermite", deg <- 0, cur <- <<>>, prev <- <<>>
I == INSTANCE IntegSpec WITH A <- 1, K <- 1, knots <- <<>>, moms <- <<>>
Same(v, q) == IF q[2] > 20000 \/ AbsI(q[1] \div q[2]) > 20000 THEN v[1] < 2147480000 ELSE v = q
(* ratio of the masses of the shifted and of the base measures               *)
Ratio(r) == IF r.fam = "lebesgue" THEN RInt(r.s) ELSE RInt(1)
(* p_k(y0) is positive; everything is recorded multiplied by p_k(y0)         *)
BadClassic(r) ==
    LET U == TLCEval([k \in 1..r.kmax + 1 |-> RDiv(P!Val(r.fam, k - 1, RInt(r.t0)), RMul(P!H(r.fam, k - 1), Ratio(r)))])
        RowOK(row, n, t) == LET D == P!DSeq(r.fam, n, r.kmax, t) IN
              \A k \in 1..r.kmax + 1 : Same(row[k], RMul(RMul(D[k], U[k]), Rat(1, PowI(r.s, n))))
    IN (IF \A k \in 1..r.kmax + 1 : r.sign[k] = 1 THEN {} ELSE {"sign"})
       \cup (IF \A i \in 1..Len(r.ts) : RowOK(r.vals[i], 0, Rat(r.ts[i], 2)) THEN {} ELSE {"values"})
       \cup (IF \A d \in 1..Len(r.ders) : \A i \in 1..Len(r.ts) : RowOK(r.ders[d].vals[i], r.ders[d].n, Rat(r.ts[i], 2)) THEN {} ELSE {"derivatives"})
       \cup (IF \A k \in 1..Len(r.coef) : LET C == P!MCoef(r.fam, k - 1) IN
                  \A j \in 1..Len(r.coef[k]) : Same(r.coef[k][j], IF j <= k THEN RMul(C[j], U[k]) ELSE <<0, 1>>) THEN {} ELSE {"coefficients"})
       \cup (IF \A k \in 1..Len(r.norms2) : Same(r.norms2[k], P!H(r.fam, k - 1)) THEN {} ELSE {"norms"})
       \cup (IF \A k \in 1..Len(r.rec) : r.rec[k][1] = <<0, 1>> /\ (k = 1 \/ Same(r.rec[k][2], P!B(r.fam, k - 1))) THEN {} ELSE {"recurrence"})
BadRoots(r) ==
    (IF Len(r.roots) = r.deg THEN {} ELSE {"number"})
    \cup (IF \A k \in 1..Len(r.roots) : AbsI(r.vals[k]) <= 20 THEN {} ELSE {"not_a_root"})
    \cup (IF \A k \in 1..Len(r.roots) - 1 : r.roots[k] < r.roots[k + 1] THEN {} ELSE {"order"})
    \cup (IF \A k \in 1..Len(r.roots) : r.roots[k] > r.lo /\ r.roots[k] < r.hi THEN {} ELSE {"support"})
(* integrals of products of polynomials, multiplied by their values at y0    *)
BadMoment(r) ==
    LET U(k) == RDiv(P!Val(r.fam, k, RInt(r.t0)), P!H(r.fam, k))
        Mo(k) == I!Moment(r.law, k)
        Row(q) == FoldLeft(LAMBDA acc, k: P!PolyMul(acc, P!MCoef(r.fam, k)), <<<<1, 1>>>>, q)
        Want(q) == RMul(P!Expect(Row(q), Mo), FoldLeft(LAMBDA acc, k: RMul(acc, U(k)), <<1, 1>>, q))
    IN IF \A i \in 1..Len(r.ind) : Same(r.val[i], RMul(Want(r.ind[i]), IF r.mean THEN RInv(Mo(0)) ELSE <<1, 1>>)) THEN {} ELSE {"moment"}
(* definition of an orthonormal family, in fixed point (thousandths)         *)
Near(a, b, tol) == AbsI(a - b) <= tol
(* hundredths of the moments of the standardised kernel law                  *)
KMom(r, k) == LET m == I!Moment(r.mu, k) IN IF k > 4 THEN 0 ELSE (m[1] * 100) \div (m[2] * PowI(r.s, k))
BadTable(r) ==
    LET KK == Len(r.coef)
        NN == Len(r.x)
        W == IF r.mu.normed THEN SumSeq(r.mu.w) ELSE 1
        Gram(a, b) == SumTo(NN, LAMBDA i: r.mu.w[i] * r.vals[i][a] * r.vals[i][b])
        (* sum c_j (x - m)^j s^(KK - j)                                       *)
        Hor(c, x) == SumTo(KK, LAMBDA j: c[j] * PowI(x - r.m, j - 1) * PowI(r.s, KK - j))
        Err(x) == SumTo(KK, LAMBDA j: PowI(AbsI(x - r.m), j - 1) * PowI(r.s, KK - j)) + 10 * PowI(r.s, KK)
        DCoef(c, n) == [j \in 1..KK |-> IF j + n > KK THEN 0 ELSE c[j + n] * ProdTo(n, LAMBDA q: j + q - 1)]
    IN (IF r.mu.kind # "discrete" \/ \A a, b \in 1..KK : Near(Gram(a, b), IF a = b THEN W * 1000000 ELSE 0, W * 12000) THEN {} ELSE {"orthonormal"})
       \cup (IF r.mu.kind # "kernel" \/ \A a, b \in 1..MinI(KK, 3) :
                  Near(SumTo(KK, LAMBDA i: SumTo(KK, LAMBDA j: (((r.coef[a][i] \div 10) * (r.coef[b][j] \div 10)) \div 100) * KMom(r, i + j - 2))),
                       IF a = b THEN 1000000 ELSE 0, 40000) THEN {} ELSE {"orthonormal"})
       \cup (IF \A k \in 1..KK : r.coef[k][k] > 0 /\ \A j \in k + 1..KK : r.coef[k][j] = 0 THEN {} ELSE {"degree"})
       \cup (IF \A i \in 1..Len(r.pts) : \A k \in 1..KK : Near(Hor(r.coef[k], r.pts[i]), r.at[i][k] * 10 * PowI(r.s, KK - 1), Err(r.pts[i])) THEN {} ELSE {"values"})
       \cup (IF \A d \in 1..Len(r.ders) : \A i \in 1..Len(r.pts) : \A k \in 1..KK :
                  Near(Hor(DCoef(r.coef[k], r.ders[d].n), r.pts[i]), r.ders[d].vals[i][k] * 10 * PowI(r.s, KK - 1 + r.ders[d].n), 30 * Err(r.pts[i])) THEN {} ELSE {"derivatives"})
BadCanon(r) ==
    LET Fall(k, n) == ProdTo(n, LAMBDA q: k - q + 1)
    IN IF \A i \in 1..Len(r.pts) : \A k \in 1..Len(r.ind) :
            r.vals[i][k] = (IF r.ind[k] < r.n THEN 0 ELSE Fall(r.ind[k], r.n) * PowI(r.pts[i], r.ind[k] - r.n)) THEN {} ELSE {"values"}
(* constant one, domain, random values                                       *)
BadExtra(r) ==
    (IF \A i \in 1..Len(r.one) : r.one[i] = <<1, 1>> THEN {} ELSE {"one"})
    \cup (IF r.dom = (IF r.fam = "hermite" THEN <<<<-1, 0>>, <<1, 0>>>> ELSE <<RInt(r.m - r.s), RInt(r.m + r.s)>>) /\ r.tdom = r.dom THEN {} ELSE {"domain"})
    \cup (IF r.orth THEN {} ELSE {"orthonormal"})
    \cup (IF r.shape = <<r.n, r.k>> /\ (r.fam # "lebesgue" => Len(r.x) = r.n) /\ Len(r.a) = Len(r.b) /\ (\A i \in 1..Len(r.a) : Near(r.a[i], r.b[i], 2))
             /\ (r.fam = "legendre" => \A i \in 1..Len(r.x) : r.x[i] >= 10000 * (r.m - r.s) /\ r.x[i] <= 10000 * (r.m + r.s)) THEN {} ELSE {"random"})
Bad1(r) == CASE r.op = "classic" -> BadClassic(r)
             [] r.op = "extra" -> BadExtra(r)
             [] r.op = "roots" -> BadRoots(r)
             [] r.op = "moment" -> BadMoment(r)
             [] r.op = "table" -> BadTable(r)
             [] r.op = "canon" -> BadCanon(r)
Bad(r) == IF r.err # "" THEN {"exception"} ELSE Bad1(r)
Chk == Report(vLine, Bad(Recs[vLine]))
=============================================================================
