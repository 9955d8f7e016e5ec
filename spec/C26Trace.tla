------------------------------ MODULE C26Trace ------------------------------
EXTENDS TreeSpec, TraceBase
(* values of the underlying function: component j at the point x             *)
Comp(c, x) == c.c0 + SumTo(Len(x), LAMBDA k: c.c[k] * x[k]) + c.q * x[1] * x[Len(x)]
Values(r, pts) == [p \in 1..Len(pts) * Len(r.cf) |-> Comp(r.cf[((p - 1) % Len(r.cf)) + 1], pts[((p - 1) \div Len(r.cf)) + 1])]
OutShape(n, out) == IF out = <<1>> THEN <<n>> ELSE <<n>> \o out
Sq(s) == SelectSeq(s, LAMBDA n: n # 1)
Count(s, x) == Cardinality({k \in 1..Len(s) : s[k] = x})
BadValues(r, pts) ==
    (IF r.exact THEN (IF r.val.shape = OutShape(Len(pts), r.oshape) THEN {} ELSE {"shape"}) ELSE {})
    \cup (IF Sq(r.val.shape) = Sq(<<Len(pts)>> \o r.oshape) THEN {} ELSE {"shape"})
    \cup (IF r.val.data = Values(r, pts) THEN {} ELSE {"values"})
BadLog(r, pts) ==
    LET want == SelectSeq(pts, LAMBDA p: ~(\E k \in 1..Len(r.seen) : r.seen[k] = p))
    IN IF RangeOf(r.log) = RangeOf(want) /\ \A p \in RangeOf(want) : Count(r.log, p) <= Count(want, p) THEN {} ELSE {"evaluations"}
BadAsk(r) == BadValues(r, r.pts) \cup BadLog(r, r.pts) \cup (IF r.ptsafter = r.pts THEN {} ELSE {"points_changed"})
Assemble(d, na, xna, xa) ==
    LET al == Sorted((1..d) \ RangeOf(na)) IN [k \in 1..d |-> IF k \in RangeOf(na) THEN xna[PosIn(na, k)] ELSE xa[PosIn(al, k)]]
BadPartial(r) == LET pts == [i \in 1..Len(r.pts) |-> Assemble(r.d, r.na, r.xna, r.pts[i])] IN BadValues(r, pts)
BadGrid(r) ==
    LET gs == [k \in 1..Len(r.grids) |-> Len(r.grids[k])]
        At(ix) == [k \in 1..Len(ix) |-> r.grids[k][ix[k]]]
        sh == IF r.oshape = <<1>> THEN gs ELSE gs \o r.oshape
    IN IF r.val.shape # sh THEN {"shape"}
       ELSE IF \A p \in 1..Size(sh) : LET ix == UnIdx(sh, p)
                                          o == SubSeq(ix, Len(gs) + 1, Len(sh))
                                          j == IF r.oshape = <<1>> THEN 1 ELSE Flat(Reverse(r.oshape), Reverse(o))      \* row-major component
                                      IN r.val.data[p] = Comp(r.cf[j], At(SubSeq(ix, 1, Len(gs)))) THEN {} ELSE {"values"}
BadSparse(r) == IF Len(r.data) = Len(r.inds) /\ Len(r.inds) = Len(r.want) /\ RangeOf(r.inds) = RangeOf(r.want)
                   /\ \A i \in 1..Len(r.inds) : r.data[i] = Comp(r.cf[1], [k \in 1..Len(r.inds[i]) |-> r.grids[k][r.inds[i][k]]])
                THEN {} ELSE {"values"}
(* compositional model: node functions of the values of the children         *)
RECURSIVE NodeVal(_, _, _)
NodeVal(r, a, x) ==
    IF r.tree.ch[a] = <<>> THEN x[PosIn(r.tree.dims, a)]
    ELSE LET z == TLCEval([k \in 1..Len(r.tree.ch[a]) |-> NodeVal(r, r.tree.ch[a][k], x)]) IN Comp(r.cf[a], z)
RootNode(t) == CHOOSE a \in 1..Len(t.parent) : t.parent[a] = 0
BadComp(r) == (IF r.val.shape = <<Len(r.pts)>> THEN {} ELSE {"shape"})
              \cup (IF r.val.data = [i \in 1..Len(r.pts) |-> NodeVal(r, RootNode(r.tree), r.pts[i])] THEN {} ELSE {"values"})
(* relative errors: n1/d1 and n2/d2 are the squares of the exact ones        *)
Rows(v, n) == [i \in 1..n |-> SubSeq(v, (i - 1) * (Len(v) \div n) + 1, i * (Len(v) \div n))]
N2(v) == SumTo(Len(v), LAMBDA k: v[k] * v[k])
Minus(a, b) == [k \in 1..Len(a) |-> a[k] - b[k]]
Near(q, num, den) == AbsI(q * den - 1000 * num) <= den + num
BadError(r) ==
    LET f == Rows(Values(r, r.pts), Len(r.pts))
        g == Rows(r.g, Len(r.pts))
        df == [i \in 1..Len(f) |-> N2(Minus(f[i], g[i]))]
        dg == [i \in 1..Len(f) |-> N2(g[i])]
    IN (IF Near(r.l2, SumSeq(df), SumSeq(dg)) THEN {} ELSE {"l2"}) \cup (IF Near(r.linf, MaxSeq(df), MaxSeq(dg)) THEN {} ELSE {"linf"})
Bad1(r) == CASE r.op = "ask" -> BadAsk(r)
             [] r.op = "partial" -> BadPartial(r)
             [] r.op = "grid" -> BadGrid(r)
             [] r.op = "sparse" -> BadSparse(r)
             [] r.op = "comp" -> BadComp(r)
             [] r.op = "error" -> BadError(r)
             [] r.op = "random" -> BadValues(r, r.pts)
Bad(r) == IF r.err # "" THEN {"exception"} ELSE Bad1(r)
Chk == Report(vLine, Bad(Recs[vLine]))
=============================================================================
