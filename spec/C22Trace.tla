------------------------------ MODULE C22Trace ------------------------------
(* One solve of the least-squares solver.  All numbers are exact rationals   *)
(* <<num, den>>; errors are squared (<<1, 0>> is infinity).                  *)
EXTENDS VBase, TraceBase
M == INSTANCE LsSpec WITH NROW <- 1, NCOL <- 1, VMAX <- 1, dat <- <<>>, cfg <- <<>>, hist <- <<>>
IsInf(e) == e[2] = 0
AllInf(v) == \A k \in 1..Len(v) : IsInf(v[k])
(* an error e = <<num, den, nearest integer to 10000 * value>> is the rational q *)
RECURSIVE Shrink(_)
Shrink(q) == IF q[1] > 200000 THEN Shrink(<<q[1] \div 2, q[2] \div 2>>) ELSE q
Is(e, q) == IF q = RUn THEN TRUE      \* out of the range of TLC integers: not judged
            ELSE IF q[2] = 0 THEN e[2] = 0
            ELSE IF e[2] = 0 THEN FALSE
            ELSE IF q[2] <= 20000 /\ q[1] <= 200000 THEN e[1] = q[1] /\ e[2] = q[2]
            ELSE LET s == Shrink(q) IN e[3] < 10000000 /\ s[2] > 0 /\ AbsI(e[3] - ((10000 * s[1]) \div s[2])) <= 2 + (e[3] \div 2000)
AsRat(e) == IF e[2] = 0 THEN M!Inf ELSE IF e[1] < 2000000000 THEN <<e[1], e[2]>> ELSE <<e[3], 10000>>
(* folds: v are the out-of-sample residuals, e the mean over the folds of the
   mean over the fold, for some balanced partition into nf folds *)
RECURSIVE Partition(_, _, _, _)
Partition(rest, sizes, good, acc) ==      \* sets of partitions are explored from the smallest element on
    IF rest = {} THEN {acc}
    ELSE LET m == CHOOSE x \in rest : \A z \in rest : x <= z
         IN UNION {Partition(rest \ S, [sizes EXCEPT ![Cardinality(S)] = @ - 1], good, acc \cup {S}) :
                     S \in {S \in good : m \in S /\ S \subseteq rest /\ Cardinality(S) <= Len(sizes) /\ sizes[Cardinality(S)] > 0}}
FoldError(v, P) == LET ps == SetToSeq(P)
                   IN RMul(RSum([k \in 1..Len(ps) |-> LET s == Sorted(ps[k]) IN M!MeanSq([i \in 1..Len(s) |-> v[s[i]]])]), <<1, Len(ps)>>)
FoldsOk(A, y, nf, v, e, fac) ==
    LET n == Len(A)
        big == (n + nf - 1) \div nf
        nbig == IF n % nf = 0 THEN nf ELSE n % nf
        sizes == [k \in 1..big |-> IF k = big THEN nbig ELSE IF k = big - 1 THEN nf - nbig ELSE 0]
        good == TLCEval({S \in UNION {kSubset(k, 1..n) : k \in {k \in 1..big : sizes[k] > 0}} :
                   LET I == (1..n) \ S
                       x == M!Ols(M!Rows(A, I), M!Rows(y, I))
                   IN \A i \in S : v[i] = M!Residual(A, y, x, i)})
    IN \E P \in Partition(1..n, sizes, good, {}) : Is(e, RMul(FoldError(v, P), fac))
(* the estimated error e and residuals v of the least-squares problem A, y *)
ErrOk(r, A, y, H, e, v) ==
    LET fac == RMul(RInv(M!SecondMoment(y)), IF r.corr THEN M!Correction(A, H) ELSE <<1, 1>>)
        n == Len(A)  p == M!Cols(A)
        loo == r.est = "leave_out" \/ (r.est = "k_fold" /\ r.nf = n)
    IN CASE loo -> IF n - 1 < p THEN IsInf(e) /\ AllInf(v)
                   ELSE LET d == M!LeaveOut(A, y) IN v = d /\ Is(e, RMul(M!MeanSq(d), fac))
         [] r.est = "k_fold" /\ ~loo -> IF n * (r.nf - 1) < p * r.nf THEN IsInf(e) /\ AllInf(v)
                   ELSE FoldsOk(A, y, r.nf, v, e, fac)
(* --------------------------------------------------------- per output o *)
SubGram(H, q) == [i \in 1..Len(q) |-> [j \in 1..Len(q) |-> H[q[i]][q[j]]]]
BadOls(r, A, y, o) ==
    (IF M!FullRank(A) THEN (IF o.sol = M!Ols(A, y) THEN {} ELSE {"minimiser"})
     ELSE (IF \A k \in 1..Len(o.grad) : o.grad[k] = 0 THEN {} ELSE {"stationary"}))
    \cup (IF r.est = "none" \/ ~o.est THEN {}
          ELSE IF r.est = "residuals"
          THEN LET v == [i \in 1..Len(A) |-> M!Residual(A, y, o.sol, i)]
               IN (IF o.delta = v /\ Is(o.err1, RDiv(M!MeanSq(v), M!SecondMoment(y))) THEN {} ELSE {"residuals"})
          ELSE (IF ErrOk(r, A, y, r.H, o.err, o.delta) THEN {} ELSE {"estimate"}))
BadPath(r, A, y, o) ==
    LET cand == o.pats
        m == Len(cand)
        Q(k) == M!Support(cand[k])
        AQ(k) == M!Keep(A, Q(k))
        fresh == [k \in 1..m |-> IF r.est = "k_fold" /\ r.nf # Len(A) THEN AsRat(o.errs[k]) ELSE
                     M!LooError(AQ(k), y, r.corr, SubGram(r.H, Q(k)))]
        kept == IF r.stop THEN M!Stopped(fresh, <<4, 1>>) ELSE fresh
        sound == \A k \in 1..m : Q(k) # <<>> /\ Len(Q(k)) <= Len(A) /\ Len(cand[k]) = M!Cols(A)
    IN IF m = 0 /\ r.mode \in {"l0", "l1"}       \* no path to select on: the penalised solution, or least squares
       THEN IF \/ (M!FullRank(A) /\ o.sol = M!Ols(A, y))
               \/ LET q == SelectSeq(Iota(M!Cols(A)), LAMBDA j: o.sol[j][1] # 0) IN r.mode = "l0" /\ o.sol = M!Embed(M!Ols(M!Keep(A, q), y), q, M!Cols(A))
               \/ r.mode = "l1" THEN {} ELSE {"minimiser"}
       ELSE IF m = 0 \/ ~sound \/ Len(o.errs) # m \/ Len(o.deltas) # m THEN {"candidates"}
       ELSE IF o.ind \notin 1..m THEN {"selected"}
       ELSE (IF r.path # <<>> /\ cand # M!Candidates(r.path, Len(A)) THEN {"candidates"} ELSE {})
       \cup (IF \A k \in 1..m : (r.stop /\ IsInf(kept[k]) /\ IsInf(o.errs[k])) \/ ErrOk(r, AQ(k), y, SubGram(r.H, Q(k)), o.errs[k], o.deltas[k])
             THEN {} ELSE {"estimate"})
       \cup (IF \A k \in 1..m : kept[k] = AsRat(o.errs[k]) \/ Is(o.errs[k], kept[k]) THEN {} ELSE {"path"})
       \cup (IF o.ind \in M!Argmins(kept) /\ o.err = o.errs[o.ind] /\ o.pat = cand[o.ind] /\ o.delta = o.deltas[o.ind] THEN {} ELSE {"selected"})
       \cup (IF o.sol = M!Embed(M!Ols(AQ(o.ind), y), Q(o.ind), M!Cols(A)) THEN {} ELSE {"minimiser"})
       \cup (IF \A b \in 1..Len(r.blocks) : \A k \in 1..m : \E j \in RangeOf(r.blocks[b]) : cand[k][j] THEN {} ELSE {"blocks"})
       \cup (IF r.mode = "l0" /\ r.greedy THEN
               (IF \A k \in 1..m : Len(Q(k)) = k /\ (k = 1 \/ RangeOf(Q(k - 1)) \subseteq RangeOf(Q(k))) /\
                    LET q == IF k = 1 THEN <<>> ELSE Q(k - 1)
                        new == CHOOSE j \in RangeOf(Q(k)) : j \notin RangeOf(q)
                    IN \A j \in (1..M!Cols(A)) \ RangeOf(q) : RLe(M!MatchScore(A, y, q, j), M!MatchScore(A, y, q, new))
                THEN {} ELSE {"greedy"}) ELSE {})
BadReg(r, A, y, o) ==     \* penalised solution itself
    CASE r.mode = "l0" -> LET q == SelectSeq(Iota(M!Cols(A)), LAMBDA j: o.sol[j][1] # 0)     \* (longer supports: third-party solver)
                         IN IF Len(q) > 2 \/ o.sol = M!Embed(M!Ols(M!Keep(A, q), y), q, M!Cols(A)) THEN {} ELSE {"minimiser"}
      [] r.mode = "l1" -> {}      \* (the penalised problem itself is solved by scikit-learn)
      [] r.mode = "l2" -> IF o.sol = M!Ridge(A, y, r.al) THEN {} ELSE {"minimiser"}
BadTest(r, o) ==
    IF ~r.test THEN {}
    ELSE LET e == RMul(M!MeanSq([i \in 1..Len(r.At) |-> M!Residual(r.At, o.yt, o.sol, i)]), IF r.abst THEN Rat(Len(r.At), r.npt) ELSE RInv(M!SecondMoment(o.yt)))
         IN IF Is(o.terr, e) THEN {} ELSE {"test_error"}
BadOut(r, o) ==
    LET A == TLCEval(M!Weighted(r.A, r.sw))
        y == TLCEval(M!WeightedY(o.y, r.sw))
    IN (CASE r.kind = "ols" -> BadOls(r, A, y, o) [] r.kind = "path" -> BadPath(r, A, y, o) [] r.kind = "reg" -> BadReg(r, A, y, o))
       \cup BadTest(r, o)
       \cup (IF o.val = <<>> \/ o.val = [i \in 1..Len(r.Av) |-> M!Predict(r.Av[i], o.sol)] THEN {} ELSE {"function"})
BadSolve(r) ==
    (IF r.frame THEN {} ELSE {"frame"})
    \cup (IF Len(r.res) # r.nout THEN {"outputs"} ELSE UNION {BadOut(r, r.res[k]) : k \in 1..r.nout})
(* the empirical risk of a function over a sample *)
BadRisk(r) ==
    LET l == [i \in 1..Len(r.pred) |-> SumTo(Len(r.pred[i]), LAMBDA j: (r.pred[i][j] - r.true[i][j]) * (r.pred[i][j] - r.true[i][j]))]
        ref == [i \in 1..Len(r.pred) |-> SumTo(Len(r.pred[i]), LAMBDA j: r.true[i][j] * r.true[i][j])]
        n == Len(r.pred)
    IN (IF r.loss = l THEN {} ELSE {"loss"})
       \cup (IF r.risk = Rat(SumSeq(l), n) THEN {} ELSE {"risk"})
       \cup (IF r.abs2 = Rat(SumSeq(l), n) THEN {} ELSE {"absolute"})
       \cup (IF SumSeq(ref) = 0 \/ r.rel2 = Rat(SumSeq(l), SumSeq(ref)) THEN {} ELSE {"relative"})
Bad1(r) == CASE r.op = "solve" -> BadSolve(r) [] r.op = "risk" -> BadRisk(r)
Bad(r) == IF r.err # "" THEN {"exception"} ELSE Bad1(r)
Chk == Report(vLine, Bad(Recs[vLine]))
=============================================================================
