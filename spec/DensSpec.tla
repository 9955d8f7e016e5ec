------------------------------ MODULE DensSpec ------------------------------
(* Linear estimation of a density in an orthonormal basis: with A the sample *)
(* of the basis (one row per point) and b the inner products with a known    *)
(* part of the density, minimise the empirical contrast                      *)
(*      |v|^2 - 2 mean_i (A v)_i + 2 <v, b>                                  *)
(* State machine: the sample arrives one point at a time and the estimator   *)
(* is updated; the leave-one-out formulas are checked against refitting.     *)
EXTENDS VBase
CONSTANTS NROW, NCOL, VMAX
VARIABLES A, b, sum, sq

Zero(p) == [j \in 1..p |-> 0]
Cols(S, q) == [i \in 1..Len(S) |-> Sel(S[i], q)]
P(S) == Len(S[1])
Dot(u, v) == RSum([j \in 1..Len(u) |-> RMul(u[j], v[j])])
AsR(v) == [j \in 1..Len(v) |-> RInt(v[j])]
Contrast(S, c, v) == RAdd(Dot(v, v), RAdd(RMul(RInt(2), Dot(v, AsR(c))), RMul(Rat(-2, Len(S)), RSum([i \in 1..Len(S) |-> Dot(AsR(S[i]), v)]))))
Estimator(S, c) == TLCEval([j \in 1..Len(c) |-> RSub(Rat(SumTo(Len(S), LAMBDA i: S[i][j]), Len(S)), RInt(c[j]))])
Without(S, i) == [k \in 1..(Len(S) - 1) |-> S[IF k < i THEN k ELSE k + 1]]
(* leaving out each point in turn, the contrast of the others' estimator at this point *)
Loo(S, c) == RMul(<<1, Len(S)>>, RSum([i \in 1..Len(S) |->
                LET v == Estimator(Without(S, i), c)
                IN RAdd(Dot(v, v), RMul(RInt(2), RSub(Dot(v, AsR(c)), Dot(AsR(S[i]), v))))]))
(* on a support q *)
LooOn(S, c, q) == Loo(Cols(S, q), Sel(c, q))
EstimatorOn(S, c, q) == LET e == Estimator(S, c) IN [j \in 1..Len(c) |-> IF j \in RangeOf(q) THEN e[j] ELSE <<0, 1>>]
Support(s) == SelectSeq(Iota(Len(s)), LAMBDA j: s[j])
Candidates(path, n) ==
    LET ok == SelectSeq(Iota(Len(path)), LAMBDA k: Support(path[k]) # <<>> /\ (\A l \in 1..(k - 1) : path[l] # path[k]) /\ Len(Support(path[k])) <= n)
    IN [k \in 1..Len(ok) |-> path[ok[k]]]
Nested(p) == [k \in 1..p |-> [j \in 1..p |-> j <= k]]
AbsR(x) == IF x[1] < 0 THEN RNeg(x) ELSE x
(* early stopping: from the third candidate on, an error above the previous
   one by more than the size of the previous one; the rest is discarded *)
StopAt(errs) ==
    LET stops == {k \in 3..Len(errs) : RLt(RAdd(errs[k - 1], AbsR(errs[k - 1])), errs[k])}
    IN IF stops = {} THEN Len(errs) ELSE CHOOSE k \in stops : \A l \in stops : k <= l
(* thresholding: coefficients by decreasing size, on top of the included ones;
   ties may be ordered in any way *)
ThresholdPath(e, incl, sup) ==       \* is sup = <<q1, q2, ...>> (sets) such a path?
    LET rest == (1..Len(e)) \ incl
        start == IF incl = {} THEN 0 ELSE 1
    IN /\ Len(sup) = Cardinality(rest) + start
       /\ start = 1 => sup[1] = incl
       /\ \A k \in 1..Len(sup) : (k > start) =>
            LET prev == IF k = 1 THEN {} ELSE sup[k - 1]
            IN /\ prev \subseteq sup[k] /\ Cardinality(sup[k]) = Cardinality(prev) + 1
               /\ \A j \in sup[k] \ prev : \A l \in (1..Len(e)) \ (sup[k] \cup incl) : RLe(AbsR(e[l]), AbsR(e[j]))

(* ------------------------------------------------------------ the machine *)
Vals == (0 - VMAX)..VMAX
Init == A = <<>> /\ b \in [1..NCOL -> Vals] /\ sum = Zero(NCOL) /\ sq = 0
Next == Len(A) < NROW /\ \E row \in [1..NCOL -> Vals] :
            /\ A' = Append(A, row)
            /\ sum' = [j \in 1..NCOL |-> sum[j] + row[j]]
            /\ sq' = sq + SumTo(NCOL, LAMBDA j: row[j] * row[j])
            /\ b' = b
Minimiser == A # <<>> => LET v == Estimator(A, b)
    IN \A d \in [1..NCOL -> {-1, 0, 1}] : RLe(Contrast(A, b, v), Contrast(A, b, [j \in 1..NCOL |-> RAdd(v[j], <<d[j], 3>>)]))
(* the closed form without known part, from the running sums *)
ClosedForm == (Len(A) > 1 /\ \A j \in 1..NCOL : b[j] = 0) =>
    LET n == Len(A)
        m == RSum([j \in 1..NCOL |-> Rat(sum[j] * sum[j], n * n)])
    IN Loo(A, b) = RAdd(RMul(Rat(0 - n * n, (n - 1) * (n - 1)), m), Rat((2 * n - 1) * sq, n * (n - 1) * (n - 1)))
(* the risk is a sum over the functions: selections can be scored separately *)
Separable == Len(A) > 1 => Loo(A, b) = RSum([j \in 1..NCOL |-> LooOn(A, b, <<j>>)])
=============================================================================
