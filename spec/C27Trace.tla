------------------------------ MODULE C27Trace ------------------------------
EXTENDS VBase, TraceBase
M == INSTANCE AltMinSpec WITH PARS <- 1, SWEEPS <- 1, VALS <- {}, ESTS <- {}, o <- <<>>, st <- <<>>, env <- <<>>
BadScript(r) ==
    LET s == M!Run(r.o, r.xs)
        n == Len(s.I)
    IN IF ~s.stop THEN {"script"}
       ELSE (IF r.seen = [j \in 1..Len(s.seen) |-> <<s.seen[j].p, s.seen[j].v>>] THEN {} ELSE {"subproblems"})
       \cup (IF r.flag = s.flag THEN {} ELSE {"flag"})
       \cup (IF r.v = s.v THEN {} ELSE {"returned"})
       \cup (IF r.I = (IF r.store THEN s.I ELSE <<>>) THEN {} ELSE {"iterates"})
       \cup (IF r.S = s.S /\ r.E = s.E /\ r.T = (IF r.o.hasTest THEN s.T ELSE <<>>) THEN {} ELSE {"records"})
       \cup (IF n = 0 \/ ((r.error = s.error \/ (~r.o.est /\ s.why # "failed")) /\ (~r.o.hasTest \/ r.terr = s.T[n])) THEN {} ELSE {"errors"})
(* --------------------------------------------------- sweeps of real learners *)
Near(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : AbsI(x[i] - y[i]) <= 20
(* 10^6 = the largest of the data *)
BadVisits(r) ==
    LET n == Len(r.visits)
        W(i) == r.visits[i]
        Same(i, x, y) == W(i).loose \/ Near(x, y)    \* numerically singular subproblems are not compared
    IN (IF \A i \in 1..n : Same(i, W(i).before, W(i).mid) THEN {} ELSE {"orthogonalise"})
       \cup (IF \A i \in 1..n : Same(i, W(i).sys, W(i).mid) THEN {} ELSE {"system"})
       \cup (IF \A i \in 1..n : Same(i, W(i).sol, W(i).after) THEN {} ELSE {"set"})
       \cup (IF \A i \in 2..n : Near(W(i).before, W(i - 1).after) THEN {} ELSE {"chain"})
       \cup (IF r.exact => \A i \in 1..n : W(i).loose \/ W(i).risk2 <= W(i).risk1 + 20 THEN {} ELSE {"risk"})
BadSweeps(r) ==
    LET m == r.per          \* parameters per sweep
        n == Len(r.visits)
        S == n \div m
        order(k) == [j \in 1..m |-> r.visits[(k - 1) * m + j].mu]
        ok(s) == CASE r.kind = "tree" -> M!TreeOrder(r.level, RangeOf(r.active), r.random, s)
                   [] r.kind = "canonical" -> M!FactorOrder(r.d, r.random, s)
                   [] r.kind = "columns" -> M!ColumnOrder(r.d, r.rank, r.loops, r.random, s)
    IN IF r.failed THEN {}
       ELSE IF n # m * S \/ S = 0 THEN {"visits"}
       ELSE (IF \A k \in 1..S : ok(order(k)) THEN {} ELSE {"order"})
       \cup (IF Len(r.I) = S /\ \A k \in 1..S : Near(r.I[k], r.visits[k * m].after) THEN {} ELSE {"iterates"})
       \cup (IF Near(r.f, r.visits[n].after) THEN {} ELSE {"returned"})
       \cup (IF Len(r.T) = (IF r.test THEN S ELSE 0) /\ Len(r.stag) = S /\ (r.E = <<>> \/ Len(r.E) = S) /\ S <= r.sweeps THEN {} ELSE {"records"})
       \cup (IF r.T = r.iterT THEN {} ELSE {"test_errors"})
       \cup (IF (r.flag = 1) = ((S > 1 /\ r.small) \/ (r.test /\ r.good)) /\ (r.flag = 0 => S = r.sweeps) /\ r.flag \in {0, 1} THEN {} ELSE {"stop"})
       \cup (IF r.frame THEN {} ELSE {"frame"})
BadReal(r) == BadVisits(r) \cup BadSweeps(r)
(* a model of the class is a fixed point, and is found from any value of the parameter visited first *)
BadExact(r) == (IF \A k \in 1..Len(r.risk) : r.risk[k] <= 5 THEN {} ELSE {"recover"}) \cup (IF r.fT <= 5 /\ Len(r.risk) > 0 THEN {} ELSE {"generalise"})
(* running again, or on new data, is running a fresh learner *)
BadAgain(r) == IF Near(r.second, r.fresh) /\ Near(r.errs, r.fresherrs) THEN {} ELSE {"again"}
BadDmrg(r) ==
    LET n == Len(r.I)
    IN (IF Len(r.T) = n /\ n \in 1..r.sweeps /\ Len(r.stag) = n /\ (r.E = <<>> \/ Len(r.E) = n) THEN {} ELSE {"records"})
       \cup (IF r.T = r.iterT THEN {} ELSE {"test_errors"})
       \cup (IF n > 0 /\ Near(r.f, r.I[n]) THEN {} ELSE {"returned"})
       \cup (IF \A k \in 1..n : \A i \in 1..Len(r.ranks[k]) : r.ranks[k][i] <= r.maxrank THEN {} ELSE {"ranks"})
       \cup (IF r.mono => \A k \in 2..n : r.risk[k] <= r.risk[k - 1] + 20 THEN {} ELSE {"risk"})
       \cup (IF r.truth => (r.fT <= 5) THEN {} ELSE {"recover"})
       \cup (IF r.tree \/ ((r.flag = 1) = ((n > 1 /\ r.small) \/ r.good) /\ (r.flag = 0 => n = r.sweeps)) THEN {} ELSE {"stop"})
       \cup (IF r.frame THEN {} ELSE {"frame"})
(* greedy construction: one more term each time, the risk never increases *)
BadGreedy(r) ==
    LET n == Len(r.I)
    IN (IF n \in 1..r.rank /\ (\A k \in 1..n : r.ranks[k] = k) THEN {} ELSE {"ranks"})
       \cup (IF \A k \in 2..n : r.risk[k] <= r.risk[k - 1] + 20 THEN {} ELSE {"risk"})
       \cup (IF \A k \in 1..n : r.risk[k] <= r.best[k] + 20 THEN {} ELSE {"weights"})
       \cup (IF r.sel \in 1..n /\ Near(r.f, r.I[r.sel]) THEN {} ELSE {"returned"})
       \cup (IF (r.E = <<>> /\ ~r.est) \/ (r.E # <<>> /\ Len(r.E) = n /\ \A k \in 1..n : r.E[r.sel] <= r.E[k]) THEN {} ELSE {"selected"})
       \cup (IF r.T = r.iterT /\ (r.test => r.terr = r.T[r.sel]) THEN {} ELSE {"test_errors"})
       \cup (IF r.frame THEN {} ELSE {"frame"})
(* the function the minimisation starts from: prescribed ranks, sizes and    *)
(* active nodes; a guess is kept when its ranks are at least sufficient, the *)
(* mean of the data is a constant function                                   *)
\* (a canonical tensor of order two is truncated before the iterations start)
BadInit(r) ==
    (IF r.ranks = r.now /\ (IF r.cut THEN r.ranks[1] <= r.want[1] ELSE r.ranks = r.want) /\ r.act = r.active /\ r.shape = r.size /\ r.finite THEN {} ELSE {"structure"})
    \cup (IF r.ref = <<>> \/ Near(r.vals, r.ref) THEN {} ELSE {"values"})
    \cup (IF r.guess THEN {} ELSE {"guess_changed"})
(* candidate patterns of the coefficients of a node: one pattern for each of  *)
(* its modes (all coefficients along an active child and its own rank), first *)
(* mode fastest                                                               *)
RECURSIVE Product(_)
Product(ps) == IF ps = <<>> THEN <<TRUE>>
               ELSE LET rest == Product(SubSeq(ps, 1, Len(ps) - 1))
                        last == ps[Len(ps)]
                        m == Len(rest)
                    IN TLCEval([k \in 1..(m * Len(last)) |-> rest[((k - 1) % m) + 1] /\ last[((k - 1) \div m) + 1]])
PathChoices(own) == LET top == MaxSeq([j \in 1..Len(own) |-> Len(own[j])])
                    f == {h \in [1..Len(own) -> 1..top] : \A j \in 1..Len(own) : h[j] <= Len(own[j])}
                IN {Product([j \in 1..Len(own) |-> own[j][h[j]]]) : h \in f}
BadPath(r) == (IF RangeOf(r.got) = PathChoices(r.own) /\ r.bools THEN {} ELSE {"patterns"}) \cup (IF r.frame THEN {} ELSE {"frame"})
Bad1(r) == CASE r.op = "path" -> BadPath(r) [] r.op = "init" -> BadInit(r) [] r.op = "script" -> BadScript(r) [] r.op = "real" -> BadReal(r) [] r.op = "exact" -> BadExact(r)
             [] r.op = "again" -> BadAgain(r) [] r.op = "dmrg" -> BadDmrg(r) [] r.op = "greedy" -> BadGreedy(r)
Bad(r) == IF r.err # "" THEN {"exception"} ELSE Bad1(r)
Chk == Report(vLine, Bad(Recs[vLine]))
=============================================================================
