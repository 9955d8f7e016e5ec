------------------------------ MODULE C29Trace ------------------------------
EXTENDS VBase, TraceBase
M == INSTANCE DensSpec WITH NROW <- 1, NCOL <- 1, VMAX <- 1, A <- <<>>, b <- <<>>, sum <- <<>>, sq <- 0
BadPath(r) ==
    LET m == Len(r.pats)
        Q(k) == M!Support(r.pats[k])
        fresh == TLCEval([k \in 1..m |-> M!LooOn(r.A, r.b, Q(k))])
        stop == IF r.stop THEN M!StopAt(fresh) ELSE m
        sound == \A k \in 1..m : Q(k) # <<>> /\ Len(r.pats[k]) = Len(r.b)
    IN IF m = 0 \/ ~sound \/ Len(r.errs) # m \/ Len(r.sols) # m THEN {"candidates"}
       ELSE IF r.ind \notin 1..m THEN {"selected"}
       ELSE (IF \A k \in 1..m : IF k <= stop THEN r.errs[k] = fresh[k] ELSE r.errs[k] = <<1, 0>> THEN {} ELSE {"estimate"})
       \cup (IF \A k \in 1..m : k > stop \/ r.sols[k] = M!EstimatorOn(r.A, r.b, Q(k)) THEN {} ELSE {"path"})
       \cup (IF r.ind <= stop /\ (\A k \in 1..stop : RLe(fresh[r.ind], fresh[k])) /\ r.error = fresh[r.ind] /\ r.pat = r.pats[r.ind] /\ r.opt = r.sol THEN {} ELSE {"selected"})
       \cup (IF r.sol = M!EstimatorOn(r.A, r.b, Q(r.ind)) THEN {} ELSE {"minimiser"})
BadSolve(r) ==
    (CASE r.mode = "std" -> (IF r.sol = M!Estimator(r.A, r.b) THEN {} ELSE {"minimiser"})
                            \cup (IF ~r.est \/ r.error = M!Loo(r.A, r.b) THEN {} ELSE {"estimate"})
       [] r.mode = "adapt" -> (IF r.path = <<>> \/ r.pats = M!Candidates(r.path, Len(r.A)) THEN {} ELSE {"candidates"}) \cup BadPath(r)
       [] r.mode = "reg" -> LET incl == RangeOf(r.incl)
                                all == incl = 1..Len(r.b)
                            IN IF all THEN (IF r.sol = M!Estimator(r.A, r.b) /\ r.error = M!Loo(r.A, r.b) THEN {} ELSE {"selected"})
                               ELSE (IF M!ThresholdPath(M!Estimator(r.A, r.b), incl, [k \in 1..Len(r.pats) |-> RangeOf(M!Support(r.pats[k]))]) THEN {} ELSE {"candidates"})
                                    \cup BadPath(r))
    \cup (IF ~r.test THEN {}
          ELSE IF r.terr = RSub(M!Dot(r.sol, r.sol), RMul(Rat(2, Len(r.At)), RSum([i \in 1..Len(r.At) |-> M!Dot(M!AsR(r.At[i]), r.sol)]))) THEN {} ELSE {"test_error"})
    \cup (IF r.val = <<>> \/ r.val = [i \in 1..Len(r.Av) |-> M!Dot(M!AsR(r.Av[i]), r.sol)] THEN {} ELSE {"function"})
    \cup (IF r.frame THEN {} ELSE {"frame"})
BadRisk(r) ==      \* losses |f|^2 - 2 f(x_i)
    LET l == [i \in 1..Len(r.pred) |-> r.norm2 - 2 * r.pred[i]]
    IN (IF r.loss = l THEN {} ELSE {"loss"})
       \cup (IF r.risk = Rat(SumSeq(l), Len(l)) /\ r.terr = r.risk THEN {} ELSE {"risk"})
Bad1(r) == CASE r.op = "solve" -> BadSolve(r) [] r.op = "risk" -> BadRisk(r)
Bad(r) == IF r.err # "" THEN {"exception"} ELSE Bad1(r)
Chk == Report(vLine, Bad(Recs[vLine]))
=============================================================================
