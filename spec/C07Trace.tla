----------------------------- MODULE C07Trace -----------------------------
(* Inner products, norms and distances (C07).  Squared norms are recorded    *)
(* with a common integer scale (1); BIG marks values that are not integers.  *)
EXTENDS FormatSpec, TraceBase
Metric(r, Y) == ModeProds(Y, r.mats, r.modes)
Bad(r) ==
    IF r.err # "" THEN {"exception"}
    ELSE LET X == Denote(r.x)
             Y == Denote(r.y)
             d == Order(X)
         IN CASE r.op = "dot"   -> IF r.val # Dot(X, Y) THEN {"dot"} ELSE {}
              [] r.op = "norm2" -> IF r.val # Norm2(X) THEN {"norm"} ELSE {}
              [] r.op = "dist2" -> IF r.val # Norm2(Sub(X, Y)) THEN {"distance"} ELSE {}
              [] r.op = "rel2"  -> \* r.val: relative distance squared times |y|^2
                                   IF r.val # Norm2(Sub(X, Y)) THEN {"relative"} ELSE {}
              [] r.op = "metric" -> IF r.val # Dot(X, Metric(r, Y)) THEN {"metric"} ELSE {}
              [] r.op = "rootdot" ->     \* vector-valued trees: matrix of inner products of the components
                   LET E == Contract(X, Y, Iota(d - 1), Iota(d - 1))
                   IN IF r.out.shape # E.shape THEN {"shape"} ELSE IF r.out.data # E.data THEN {"dot"} ELSE {}
              [] r.op = "bilinear" -> \* <aX + bY, Z> computed in the format
                   IF r.val # r.a * Dot(X, Denote(r.z)) + r.b * Dot(Y, Denote(r.z)) THEN {"bilinear"} ELSE {}
Chk == Report(vLine, Bad(Recs[vLine]))
=============================================================================
