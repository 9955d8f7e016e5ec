------------------------------ MODULE C04Trace ------------------------------
(* A program and what was seen: fps[k] the state of every object after step  *)
(* k - 1 (0: before its creation), out[k] what step k returned, alone[k]     *)
(* what it returns when only the steps it depends on are run on fresh copies *)
(* of the initial objects, again[k] when it is repeated at the end.          *)
EXTENDS VBase, HeapOps, TraceBase
Near(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : AbsI(a[i] - b[i]) <= 5 + AbsI(a[i]) \div 100000
Typed(r, k) == LET a == ArgsOf[r.prog[k].op] IN Len(a) = Len(r.prog[k].args) /\ \A i \in 1..Len(a) : r.kinds[r.prog[k].args[i]] = a[i]
Bad1(r) ==
    UNION {LET s == r.prog[k] IN
           (IF Typed(r, k) THEN {} ELSE {"untyped " \o s.op})
           \cup (IF \A j \in 1..Len(r.fps[k]) : r.fps[k + 1][j] = r.fps[k][j] THEN {} ELSE {"changed by " \o s.op})
           \cup (IF r.errs[k] = "" THEN {} ELSE {"exception in " \o s.op})
           \cup (IF r.errs[k] # "" \/ Near(r.out[k], r.alone[k]) THEN {} ELSE {"history changes " \o s.op})
           \cup (IF r.errs[k] # "" \/ Near(r.out[k], r.again[k]) THEN {} ELSE {"repetition changes " \o s.op})
           : k \in 1..Len(r.prog)}
Bad(r) == IF r.err # "" THEN {"exception"} ELSE Bad1(r)
Chk == Report(vLine, Bad(Recs[vLine]))
=============================================================================
