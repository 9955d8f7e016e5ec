------------------------------ MODULE C09Trace ------------------------------
EXTENDS FormatSpec, TraceBase
S == INSTANCE TruncSpec WITH NS <- 1, SMAX <- 1, TOLS <- 1, DIV <- 1,
        sg <- <<1>>, tol <- 1, arr <- 0, done <- 0, cur <- 0, conf <- 0, hist <- <<>>
O == INSTANCE OrthSpec WITH E <- 1, leaf1 <- 0, inner <- 0, root <- 0
Same(r) == IF r.conf = r.confafter THEN {} ELSE {"configuration_changed"}
BadSvd(r) ==
    LET A == Denote(r.x)
        want == S!Shrunk(r.sv, r.conf)
        k == Len(r.core)
        zero == \A j \in 1..Len(want) : want[j] = 0
    IN (IF k = S!RankFor(r.sv, r.conf, r.power) \/ (r.sv[1] = 0 /\ k >= 1) THEN {} ELSE {"rank"})
       \cup (IF \A j \in 1..k : AbsI(r.core[j] - 1000 * want[j]) <= 20 THEN {} ELSE {"singular_values"})
       \cup (IF r.sv[1] = 0 \/ zero \/ \A j \in 1..2 : O!NearEye(r.grams[j], 1000000, 50) THEN {} ELSE {"not_orthonormal"})
       \* distance to the matrix: what was discarded and subtracted
       \cup (LET e2 == SumTo(Len(r.sv), LAMBDA j: LET w == IF j <= k THEN want[j] ELSE 0 IN (r.sv[j] - w) * (r.sv[j] - w))
             IN IF AbsI(r.err2 - 100 * e2) <= 2 + e2 \div 1000 THEN {} ELSE {"error"})
(* rank bound of each node (0: none) against the sizes of its matricisation  *)
Binds(r) == \E a \in 1..Len(r.ranks) :
               r.act[a] /\ a # r.root /\ r.bounds[a] # 0 /\ r.ranks[a] >= r.bounds[a] /\ r.bounds[a] < r.full[a]
BadTrunc(r) ==
    LET A == Denote(r.x)
        B == [shape |-> r.out.shape, data |-> r.out.data]             \* times 1000
        c == r.conf
    IN IF B.shape # A.shape THEN {"shape"} ELSE
       (LET e2 == SumTo(Len(A.data), LAMBDA j: LET d == MinI(40000, AbsI(1000 * A.data[j] - B.data[j])) IN (d * d) \div 1000)     \* times 1000
        IN IF Binds(r) THEN {}
           ELSE IF c.p = 0 THEN (IF \A j \in 1..Len(A.data) : AbsI(1000 * A.data[j] - B.data[j]) <= 5 THEN {} ELSE {"not_reproduced"})
           ELSE IF (e2 \div 10) * c.q * c.q <= 100 * c.p * c.p * Norm2(A) + 2 * c.q * c.q THEN {} ELSE {"tolerance"})
       \cup (IF \A a \in 1..Len(r.ranks) : ~r.act[a] \/ a = r.root \/ r.bounds[a] = 0 \/ r.ranks[a] <= r.bounds[a] THEN {} ELSE {"rank_bound"})
       \cup (IF \A a \in 1..Len(r.ranks) : ~r.act[a] \/ a = r.root \/ r.ranks[a] <= r.full[a] THEN {} ELSE {"rank_size"})
       \cup (IF r.tree = r.wanttree /\ r.act = r.wantact THEN {} ELSE {"tree"})
       \cup (IF AbsI(r.selfnorm2 - r.norm2) <= 20 + r.norm2 \div 1000 THEN {} ELSE {"norm"})
(* tensors with known truncations                                            *)
BadLatin(r) ==
    LET A == Denote(r.x)
        s2 == [k \in 1..3 |-> S!Slice2(A, k)]
    IN BadTrunc(r)
       \cup (IF ~Binds(r) /\ r.maxtol # 0 /\ \E k \in 1..3 : r.act[r.tree.dims[k]] /\
                 \* each mode alone never needs more than the tolerance divided by the number of truncations asks for
                 r.ranks[r.tree.dims[k]] > S!Min2(s2[k], r.conf.p, r.conf.q, r.maxtol) THEN {"rank_not_small"} ELSE {})
Bad1(r) ==
    CASE r.op = "svd" -> BadSvd(r) \cup Same(r)
      [] r.op = "trunc" -> BadTrunc(r) \cup Same(r)
      [] r.op = "latin" -> BadLatin(r) \cup Same(r)
Bad(r) == IF r.err # "" THEN {"exception"} ELSE Bad1(r)
Chk == Report(vLine, Bad(Recs[vLine]))
=============================================================================
