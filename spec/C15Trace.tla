------------------------------ MODULE C15Trace ------------------------------
EXTENDS GridSpec, TraceBase
Bad1(r) ==
    CASE r.op = "grid"   -> (IF r.points # FullGrid(r.grids) THEN {"points"} ELSE {})
                            \cup (IF r.shape # GShape(r.grids) THEN {"shape"} ELSE {})
                            \cup (IF r.size # Size(GShape(r.grids)) THEN {"size"} ELSE {})
                            \cup (IF r.dim # Len(r.grids) THEN {"dim"} ELSE {})
                            \cup (IF r.inds # [p \in 1..Size(GShape(r.grids)) |-> UnIdx(GShape(r.grids), p)] THEN {"indices"} ELSE {})
      [] r.op = "at"     -> IF r.points # SparseGrid(r.grids, r.inds) THEN {"points"} ELSE {}
      [] r.op = "sparse" -> (IF r.points # SparseGrid(r.grids, r.inds) THEN {"points"} ELSE {})
                            \cup (IF r.size # Len(r.inds) THEN {"size"} ELSE {})
                            \cup (IF r.shape # GShape(r.grids) THEN {"shape"} ELSE {})
                            \cup (IF r.dim # Len(r.grids) THEN {"dim"} ELSE {})
      [] r.op = "eval"   -> LET E == ValueTensor(r.grids, r.c, r.outshape)
                            IN (IF r.out.shape # E.shape THEN {"shape"} ELSE IF r.out.data # E.data THEN {"values"} ELSE {})
                               \cup (IF r.order # Len(E.shape) THEN {"order"} ELSE {})
      [] r.op = "evalsparse" ->
             LET sh == GShape(r.grids)
                 E == [p \in 1..Size(sh) |-> IF \E q \in 1..Len(r.inds) : r.inds[q] = UnIdx(sh, p)
                                             THEN FunAt(r.c, GPoint(r.grids, UnIdx(sh, p)))[1] ELSE 0]
             IN IF r.out.shape # sh THEN {"shape"} ELSE IF r.out.data # E THEN {"values"} ELSE {}
      [] r.op = "random" -> (IF r.shape # r.want THEN {"shape"} ELSE {})
                            \cup (IF r.npoints # Size(r.want) THEN {"size"} ELSE {})
                            \cup (IF \A k \in 1..Len(r.lo) : \A p \in 1..Len(r.pts[k]) : r.pts[k][p] >= r.lo[k] /\ r.pts[k][p] <= r.hi[k]
                                  THEN {} ELSE {"support"})
Bad(r) == IF r.err # "" THEN {"exception"} ELSE Bad1(r)
Chk == Report(vLine, Bad(Recs[vLine]))
=============================================================================
