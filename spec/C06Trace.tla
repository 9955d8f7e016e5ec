------------------------------ MODULE C06Trace ------------------------------
EXTENDS TreeSpec, TraceBase
Tr(t) == [parent |-> t.parent, dims |-> t.dims]
Bad1(r) ==
    LET T == Tr(r.x)
        (* the results must be these trees, with these numbers of nodes: the  *)
        (* caller keeps using the numbers of the tree it started from         *)
        Want == CASE r.op = "permute" -> PermuteD(T, r.s)
                  [] r.op = "ipermute" -> IPermuteD(T, r.s)
                  [] r.op = "reroot" -> ReRoot(T, r.a)
                  [] r.op = "add" -> AddCh(T, r.a)
                  [] r.op = "sub" -> SubTree(T, r.a)
                  [] OTHER -> T
    IN (IF r.op = "eq" \/ Tr(r.out) = Want THEN {} ELSE {"tree"})
       \cup (IF r.op = "eq" THEN (IF r.val = SameTree(T, Tr(r.y)) /\ r.neval = ~r.val THEN {} ELSE {"equality"})
             ELSE IF r.op = "reroot" THEN
                  LET must == IF r.a = RootOf(T) THEN {} ELSE PathOf(T, r.a)
                      may == must \cup UNION {RangeOf(Ch(T, b)) : b \in must}
                  IN IF must \subseteq RangeOf(r.nod) /\ RangeOf(r.nod) \subseteq may THEN {} ELSE {"modified_nodes"}
             ELSE IF r.op = "sub" THEN (IF r.nod = SubNodes(T, r.a) THEN {} ELSE {"nodes"})
             ELSE {})
       \cup (IF Tr(r.xafter) = T THEN {} ELSE {"operand_changed"})
Bad(r) == IF r.err # "" THEN {"exception"} ELSE Bad1(r)
Chk == Report(vLine, Bad(Recs[vLine]))
=============================================================================
