------------------------------ MODULE C14Trace ------------------------------
EXTENDS VBase, TraceBase
E == INSTANCE EncodingSpec WITH MB <- 2, MD <- 1, MQ <- 1, b <- 2, d <- 1, q <- 1, ts <- <<0, 0>>
Bad1(r) ==
    CASE r.op = "sub2ind"  -> IF r.val = [k \in 1..Len(r.x) |-> Flat(r.shape, r.x[k]) - 1] THEN {} ELSE {"index"}
      [] r.op = "ind2sub"  -> IF r.out = [k \in 1..Len(r.x) |-> UnIdx(r.shape, r.x[k])] THEN {} ELSE {"index"}
      [] r.op = "tobase"   -> IF r.out = [k \in 1..Len(r.x) |-> E!Digits(r.x[k], r.b, r.d)] THEN {} ELSE {"digits"}
      [] r.op = "tobase_min" -> LET dd == MaxSeq([k \in 1..Len(r.x) |-> E!MinDigits(r.x[k], r.b)])
                                IN IF r.out = [k \in 1..Len(r.x) |-> E!Digits(r.x[k], r.b, dd)] THEN {} ELSE {"digits"}
      [] r.op = "frombase" -> IF r.val = [k \in 1..Len(r.x) |-> E!Undigits(r.x[k], r.b)] THEN {} ELSE {"integer"}
      [] r.op = "map"      -> (IF r.index = [k \in 1..Len(r.t) |-> E!MapIndex(r.t[k], r.b, r.d, r.q, r.ordering)] THEN {} ELSE {"digits"})
                              \cup (IF r.rest = [k \in 1..Len(r.t) |-> E!MapRest(r.t[k], r.b, r.d, r.q)] THEN {} ELSE {"remainder"})
      [] r.op = "unmap"    -> IF r.out = [k \in 1..Len(r.ix) |-> E!Unmap(r.ix[k], r.ys[k], r.b, r.d, r.q, r.ordering)] THEN {} ELSE {"point"}
      [] r.op = "roundtrip" -> \* any law: the image of the image is the point, and the digits are those of the distribution function
                              (IF \A k \in 1..Len(r.x) : AbsI(r.x[k] - r.back[k]) <= 20 THEN {} ELSE {"roundtrip"})
                              \cup (IF r.index = [k \in 1..Len(r.cell) |-> E!Digits(r.cell[k], r.b, r.d)] THEN {} ELSE {"digits"})
      [] r.op = "mixed"    -> \* each variable by its own law, each remainder by its own local law
                              (IF Len(r.back) = Len(r.x) /\ \A k \in 1..Len(r.x) : AbsI(r.x[k] - r.back[k]) <= 3 THEN {} ELSE {"roundtrip"})
                              \cup (IF r.index = [k \in 1..Len(r.cell) |-> E!MapIndex(r.cell[k], r.b, r.d, 1, r.ordering)] THEN {} ELSE {"digits"})
                              \cup (IF Len(r.rest) = Len(r.y) /\ \A k \in 1..Len(r.y) : AbsI(r.rest[k] - r.y[k]) <= 3 THEN {} ELSE {"remainder"})
      [] r.op = "fun"      -> IF r.val = [k \in 1..Len(r.t) |-> E!PolyAt(r.c, r.t[k])] THEN {} ELSE {"value"}
      [] r.op = "bases"    -> IF r.card = [k \in 1..(r.dim * (r.d + 1)) |-> IF k <= r.dim * r.d THEN r.b ELSE r.h + 1] THEN {} ELSE {"bases"}
      [] r.op = "given"    -> IF r.same /\ r.card = [k \in 1..(r.dim * (r.d + 1)) |-> IF k <= r.dim * r.d THEN r.b ELSE r.degs[k - r.dim * r.d] + 1] THEN {} ELSE {"bases"}
      [] r.op = "gram"     -> IF r.gram = [p \in 1..(r.n * r.n) |-> IF (p - 1) % r.n = (p - 1) \div r.n THEN 1 ELSE 0] THEN {} ELSE {"orthonormal"}
Bad(r) == IF r.err # "" THEN {"exception"} ELSE Bad1(r)
Chk == Report(vLine, Bad(Recs[vLine]))
=============================================================================
