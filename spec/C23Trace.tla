------------------------------ MODULE C23Trace ------------------------------
EXTENDS VBase, TraceBase
M == INSTANCE AdaptSpec WITH L <- 1, ERRS <- {}, TERRS <- {}, o <- <<>>, sc <- <<>>, st <- <<>>
BadScript(r) ==
    LET s == M!Run(r.o, r.sc)
        n == Len(s.I)
        sel == M!Selects(r.o)
        j == IF sel THEN r.sel ELSE n
    IN IF ~s.stop THEN {"script"}
       ELSE (IF r.solves = s.n /\ r.ranks = SubSeq(s.ranks, 1, s.n) /\ r.guess = SubSeq(s.guess, 1, s.n) THEN {} ELSE {"passes"})
       \cup (IF r.flag = s.flag THEN {} ELSE {"flag"})
       \cup (IF r.E = (IF r.o.hasErr THEN s.E ELSE <<>>) /\ r.T = (IF r.o.hasTest THEN s.T ELSE <<>>) THEN {} ELSE {"sequences"})
       \cup (IF r.I = (IF r.store THEN s.I ELSE <<>>) THEN {} ELSE {"iterates"})
       \cup (IF sel THEN (IF M!SelectedOk(r.o, s, r.sel) THEN {} ELSE {"selection"}) ELSE (IF r.sel = 0 THEN {} ELSE {"selection"}))
       \cup (IF j \in 1..n /\ r.f = s.I[j] /\ (~r.o.hasErr \/ r.error = s.E[j]) /\ (~r.o.hasTest \/ r.terr = s.T[j]) THEN {} ELSE {"returned"})
       \cup (IF r.bases THEN {} ELSE {"bases"})
(* runs of the real learners: the reported scores are those of the iterates *)
BadRun(r) ==
    LET n == Len(r.iterT)
    IN (IF Len(r.T) = n /\ Len(r.ranks) = n /\ (r.E = <<>> \/ Len(r.E) = n) /\ n \in 1..r.maxIt THEN {} ELSE {"lengths"})
       \cup (IF r.T = r.iterT THEN {} ELSE {"test_errors"})
       \cup (IF Len(r.T) = n /\ (IF r.sel = 0 THEN r.fT = r.T[n] /\ r.terr = r.T[n]
                ELSE r.sel \in 1..n /\ r.fT = r.T[r.sel] /\ r.terr = r.T[r.sel]
                     /\ (IF r.msel = "test_error" THEN \A k \in 1..n : r.T[r.sel] <= r.T[k] ELSE \A k \in 1..n : r.E[r.sel] <= r.E[k])) THEN {} ELSE {"returned"})
       \cup (IF r.E = <<>> \/ (r.error = r.E[IF r.sel = 0 THEN n ELSE r.sel]) THEN {} ELSE {"error"})
       \cup (IF r.canonical => \A k \in 1..n : r.ranks[k] <= k THEN {} ELSE {"ranks"})
       \cup (IF r.frame THEN {} ELSE {"frame"})
Bad1(r) == CASE r.op = "script" -> BadScript(r) [] r.op = "run" -> BadRun(r)
Bad(r) == IF r.err # "" THEN {"exception"} ELSE Bad1(r)
Chk == Report(vLine, Bad(Recs[vLine]))
=============================================================================
