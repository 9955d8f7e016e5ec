------------------------------ MODULE C13Trace ------------------------------
(* Generated multi-index sets (C13): each generator returns exactly the      *)
(* multi-indices satisfying its defining inequality (GenSpec), once each.    *)
EXTENDS VBase, TraceBase
M == INSTANCE GenSpec WITH MD <- 1, MB <- 1, MW <- 1, gr <- 0, gS <- {}
Bad(r) ==
    IF r.err # "" THEN {"exception"}
    ELSE (IF r.op = "rcross" THEN M!BadReal(r) ELSE IF RangeOf(r.out) # M!Wanted(r) THEN {"set"} ELSE {})
         \cup (IF NoDup(r.out) THEN {} ELSE {"duplicate"})
         \cup (IF r.op = "product" /\ r.out # M!ProductOrder(r) THEN {"order"} ELSE {})
Chk == Report(vLine, Bad(Recs[vLine]))
=============================================================================
