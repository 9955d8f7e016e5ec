------------------------------ MODULE C25Trace ------------------------------
EXTENDS VBase, TraceBase
S == INSTANCE SplineSpec WITH TMAX <- 1, M <- 1, t <- <<0>>
Same(v, q) == IF q[2] > 20000 THEN v[2] > 0 /\ v[1] # 2147483645 ELSE v = q
(* ints r.t, r.x in units of 1/r.u: a k-th derivative is multiplied by u^k   *)
Table(r, nc, f(_, _)) == Len(r.v) = Len(r.x) /\ \A i \in 1..Len(r.x) : Len(r.v[i]) = nc /\ \A j \in 1..nc : Same(r.v[i][j], f(j, r.x[i]))
InPiece(r, x) == S!Horner(r.poly[S!Elem(r.p, x)], x)
Ok(r) ==
    CASE r.op = "spline" -> Table(r, S!Card(r.t, r.m), LAMBDA j, x: RMul(RInt(PowI(r.u, r.k)), S!D(r.t, j, r.m, r.k, RInt(x))))
      [] r.op = "comb" -> Len(r.v) = Len(r.x) /\ \A i \in 1..Len(r.x) :
                            Same(r.v[i], RMul(RInt(PowI(r.u, r.k)), RSum([j \in 1..Len(r.c) |-> RMul(RInt(r.c[j]), S!D(r.t, j, r.m, r.k, RInt(r.x[i])))])))
      [] r.op = "knots" -> r.t = (IF r.how = "cardinal" THEN [k \in 1..r.m + 2 |-> r.u * (k - 1)] ELSE S!Extra(r.base, r.m)) /\ r.card = S!Card(r.t, r.m)
      [] r.op = "unity" -> \A i \in 1..Len(r.v) : \A q \in 1..Len(r.v[i]) : r.v[i][q] = RInt(IF q = 1 THEN 1 ELSE 0)
      [] r.op = "poly" -> Len(r.v) = Len(r.x) /\ \A i \in 1..Len(r.x) : Same(r.v[i], S!Horner(r.c, r.x[i]))
      [] r.op = "dilated" -> Table(r, Len(r.ind), LAMBDA j, x: S!Dil(r.m, r.b, r.ind[j][1], r.ind[j][2], r.k, x))
      [] r.op = "levels" -> NoDup(r.ind) /\ RangeOf(r.ind) = (IF r.one THEN {e \in S!Levels(r.m, r.b, r.lev) : e[1] = r.lev} ELSE S!Levels(r.m, r.b, r.lev))
                            /\ r.card \in {-1, Len(r.ind)}
      [] r.op = "pieces" -> LET c == S!Cols(r.deg) IN Table(r, Len(r.sel), LAMBDA j, x: S!Piece(r.p, c[r.sel[j]][1], c[r.sel[j]][2], r.k, x))
      [] r.op = "pmean" -> LET c == S!Cols(r.deg) IN Len(r.v) = Len(c) /\ \A j \in 1..Len(c) : Same(r.v[j], IF c[j][2] = 0 THEN RSub(r.p[c[j][1] + 1], r.p[c[j][1]]) ELSE <<0, 1>>)
      [] r.op = "nodes" -> LET c == S!Cols(r.deg) IN
              /\ Len(r.pts) = Len(c)
              /\ \A j \in 1..Len(c) : RLe(r.p[c[j][1]], r.pts[j]) /\ RLe(r.pts[j], r.p[c[j][1] + 1]) /\ (r.open => RLt(r.p[c[j][1]], r.pts[j]) /\ RLt(r.pts[j], r.p[c[j][1] + 1]))
              /\ \A j \in 1..Len(c) : \A l \in 1..Len(c) : j # l => r.pts[j] # r.pts[l]
      [] r.op = "piecewise" -> Len(r.v) = Len(r.x) /\ \A i \in 1..Len(r.x) : Same(r.v[i], InPiece(r, r.x[i]))
      [] r.op = "mesh" -> LET A == IF r.how = "adapted" THEN S!Adapted(r.a, r.b, RangeOf(r.s), r.ne)
                                   ELSE [x |-> [k \in 1..r.ne + 1 |-> RAdd(RInt(r.a), Rat((r.b - r.a) * (k - 1), r.ne))],
                                         p |-> IF Len(r.q) = 1 THEN [k \in 1..r.ne |-> r.q[1]] ELSE r.q]
                         IN r.p = A.x /\ r.deg = A.p /\ r.card = Len(S!Cols(r.deg)) /\ r.dom = <<RInt(r.a), RInt(r.b)>>
      [] r.op = "where" -> Len(r.e) = Len(r.x) /\ \A i \in 1..Len(r.x) : r.e[i] = (IF RLt(r.x[i], r.p[1]) THEN 1 ELSE IF RLt(r.p[Len(r.p)], r.x[i]) THEN Len(r.p) - 1 ELSE S!Elem(r.p, r.x[i]))
Bad1(r) == IF Ok(r) THEN {} ELSE {r.op}
Bad(r) == IF r.err # "" THEN {"exception"} ELSE Bad1(r)
Chk == Report(vLine, Bad(Recs[vLine]))
=============================================================================
