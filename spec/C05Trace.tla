------------------------------ MODULE C05Trace ------------------------------
EXTENDS TreeSpec, TraceBase
Tr(r) == [parent |-> r.tree.parent, dims |-> r.tree.dims]
BadBuild(r) ==
    LET T == Tr(r) IN
    CASE r.kind = "given"    -> IF T = [parent |-> r.want.parent, dims |-> r.want.dims] THEN {} ELSE {"tree"}
      [] r.kind = "trivial"  -> IF SameTree(T, TrivialTree(r.d)) THEN {} ELSE {"tree"}
      [] r.kind = "linear"   -> IF IsLinear(T, r.order) THEN {} ELSE {"tree"}
      [] r.kind = "balanced" -> IF IsBalanced(T, r.d) /\ SameTree(T, PermuteD([parent |-> r.plain.parent, dims |-> r.plain.dims], r.order)) THEN {} ELSE {"tree"}
      [] r.kind = "random"   -> IF Len(T.dims) = r.d /\ ArityIn(T, r.lo, r.hi) THEN {} ELSE {"tree"}
      [] r.kind = "derived"  -> {}
Bad1(r) == IF ~WFTree(Tr(r)) THEN {"malformed_tree"} ELSE BadBuild(r) \cup BadQueries(Tr(r), r.q)
Bad(r) == IF r.err # "" THEN {"exception"} ELSE Bad1(r)
Chk == Report(vLine, Bad(Recs[vLine]))
=============================================================================
