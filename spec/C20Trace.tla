------------------------------ MODULE C20Trace ------------------------------
EXTENDS VBase, TraceBase
M == INSTANCE IntegSpec WITH A <- 1, K <- 1, knots <- <<>>, moms <- <<>>
Eq(v, den, q) == v < 2147480000 /\ Rat(v, den) = q
BadRule(r) ==
    (IF \A k \in 1..Len(r.mom) : Eq(r.mom[k], r.den[k], M!Moment(r.mu, k - 1)) THEN {} ELSE {"exactness"})
    \cup (IF \A k \in 1..Len(r.signs) : r.signs[k] = 1 THEN {} ELSE {"positive"})
    \cup (IF r.inside THEN {} ELSE {"support"})
    \cup (IF r.npts = r.n /\ r.nw = r.n THEN {} ELSE {"number"})
    \cup (IF r.ndim = 1 THEN {} ELSE {"ndim"})
BadProduct(r) ==       \* moments of products of powers: r.pw[i] the exponents
    (IF \A i \in 1..Len(r.pw) :
            Eq(r.mom[i], r.den[i], FoldLeft(LAMBDA acc, d: RMul(acc, M!Moment(r.mus[d], r.pw[i][d])), <<1, 1>>, Iota(Len(r.mus)))) THEN {} ELSE {"exactness"})
    \cup (IF r.npts = ProdSeq(r.n) /\ r.nw = r.npts THEN {} ELSE {"number"})
    \cup (IF r.ndim = Len(r.mus) THEN {} ELSE {"ndim"})
    \cup (IF r.axes THEN {} ELSE {"axes"})
BadComposite(r) ==     \* r.knots sorted, r.piece[i], r.pw[i]: integral of x^pw on one piece (0: on all)
    LET Integral(p, k) == IF p = 0 THEN M!LebMoment(r.knots[1], r.knots[Len(r.knots)], k) ELSE M!LebMoment(r.knots[p], r.knots[p + 1], k)
    IN (IF \A i \in 1..Len(r.pw) : Eq(r.mom[i], r.den[i], Integral(r.piece[i], r.pw[i])) THEN {} ELSE {"exactness"})
       \cup (IF r.counts = r.n THEN {} ELSE {"number"})
       \cup (IF \A k \in 1..Len(r.signs) : r.signs[k] = 1 THEN {} ELSE {"positive"})
Bad1(r) == CASE r.op = "rule" -> BadRule(r)
             [] r.op = "product" -> BadProduct(r)
             [] r.op = "composite" -> BadComposite(r)
Bad(r) == IF r.err # "" THEN {"exception"} ELSE Bad1(r)
Chk == Report(vLine, Bad(Recs[vLine]))
=============================================================================
