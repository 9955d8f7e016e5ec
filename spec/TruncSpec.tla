------------------------------ MODULE TruncSpec -----------------------------
(* Truncation: the rank a configuration prescribes for given singular        *)
(* values, the error bound for a tensor, and the truncation object as a      *)
(* state machine whose configuration only its user changes.                  *)
(* conf = [p, q: tolerance p/q, mr: bound (0: none), thr: "none" | "hard" |  *)
(* "soft", tau]                                                              *)
EXTENDS FormatSpec, Json

RangeSum(s, f(_)) == FoldLeft(LAMBDA a, x: a + f(x), 0, s)
TailP(sg, k, pow) == RangeSum(SubSeq(sg, k + 1, Len(sg)), LAMBDA x: PowI(x, pow))
(* relative error of rank k at most p/q, in the Schatten norm of order pow (0: *)
(* the largest singular value)                                               *)
Meets(sg, k, p, q, pow) ==
    IF pow = 0 THEN (IF k = Len(sg) THEN TRUE ELSE q * sg[k + 1] <= p * sg[1])
    ELSE PowI(q, pow) * TailP(sg, k, pow) <= PowI(p, pow) * TailP(sg, 0, pow)
MinRank(sg, p, q, pow) ==
    IF \E k \in 1..Len(sg) : Meets(sg, k, p, q, pow)
    THEN CHOOSE k \in 1..Len(sg) : Meets(sg, k, p, q, pow) /\ \A j \in 1..(k - 1) : ~Meets(sg, j, p, q, pow)
    ELSE Len(sg)
Bound(mr, k) == IF mr = 0 THEN k ELSE MinI(mr, k)
Kept(sg, c) == IF c.thr = "none" \/ c.tau = 0 THEN Len(sg)
               ELSE MaxI(1, Cardinality({k \in 1..Len(sg) : sg[k] >= c.tau}))
RankFor(sg, c, pow) == MinI(Bound(c.mr, MinRank(sg, c.p, c.q, pow)), Kept(sg, c))
Shrunk(sg, c) == IF c.thr = "soft" THEN [k \in 1..Len(sg) |-> MaxI(0, sg[k] - c.tau)]
                 ELSE IF c.thr = "hard" THEN [k \in 1..Len(sg) |-> IF sg[k] >= c.tau THEN sg[k] ELSE 0] ELSE sg

(* ------------------------------------------------------- tensors          *)
Err2(A, B) == SumTo(Len(A.data), LAMBDA p: (A.data[p] - B.data[p]) * (A.data[p] - B.data[p]))
(* tensors whose slices have disjoint supports in every direction: entries   *)
(* only at (i, j, k) with i + j + k = 0 modulo n; v[i][j] their values       *)
Latin(v) == LET n == Len(v) IN
            Ten(<<n, n, n>>, LAMBDA ix: IF (ix[1] + ix[2] + ix[3]) % n = 0 THEN v[ix[1]][ix[2]] ELSE 0)
Slice2(A, k) == [i \in 1..A.shape[k] |-> SumTo(Len(A.data), LAMBDA p: IF UnIdx(A.shape, p)[k] = i THEN A.data[p] * A.data[p] ELSE 0)]
SortDown(s) == SortSeq(s, LAMBDA a, b: a > b)
(* smallest rank for squared values s2 whose tail is below (p/q)^2 / m       *)
Min2(s2, p, q, m) ==
    LET s == SortDown(s2)
        ok(k) == m * q * q * RangeSum(SubSeq(s, k + 1, Len(s)), LAMBDA x: x) < p * p * RangeSum(s, LAMBDA x: x)
    IN IF \E k \in 1..Len(s) : ok(k) THEN CHOOSE k \in 1..Len(s) : ok(k) /\ \A j \in 1..(k - 1) : ~ok(j) ELSE Len(s)
(* indices kept along mode k with r slices: those of largest norm            *)
KeptIdx(s2, r) == CHOOSE S \in SUBSET (1..Len(s2)) : Cardinality(S) = r /\ \A a \in S, b \in (1..Len(s2)) \ S : s2[a] >= s2[b]
Project(A, k, S) == Ten(A.shape, LAMBDA ix: IF ix[k] \in S THEN At(A, ix) ELSE 0)

(* ------------------------------------------------------------ model A     *)
(* the rank rule on all the small families of singular values                *)
CONSTANTS NS, SMAX, TOLS, DIV
VARIABLES sg, tol, arr, done, cur, conf, hist
RankInit == arr = 0 /\ done = 0 /\ cur = 0 /\ conf = 0 /\ hist = <<>> /\ sg \in {s \in UNION {[1..n -> 0..SMAX] : n \in 1..NS} : s[1] > 0 /\ \A k \in 1..(Len(s) - 1) : s[k] >= s[k + 1]} /\ tol = 1
RankNext == tol < TOLS /\ tol' = tol + 1 /\ UNCHANGED <<sg, arr, done, cur, conf, hist>>
RankLaw ==
    LET k == MinRank(sg, tol, TOLS, 2) IN
    /\ Meets(sg, k, tol, TOLS, 2) \/ k = Len(sg)
    /\ tol < TOLS => MinRank(sg, tol + 1, TOLS, 2) <= k                  \* a larger tolerance, a smaller rank
    /\ \A j \in 1..Len(sg) : (Meets(sg, j, tol, TOLS, 2) => j >= k)
    /\ \A pow \in 0..2 : Meets(sg, MinRank(sg, tol, TOLS, pow), tol, TOLS, pow) /\ MinRank(sg, 0, TOLS, pow) = Cardinality({j \in 1..Len(sg) : sg[j] > 0})
(* ------------------------------------------------------------ model B     *)
(* truncation mode by mode with the tolerance divided among the DIV modes    *)
ModeInit == conf = 0 /\ hist = <<>> /\ arr \in {Latin(v) : v \in [1..2 -> [1..2 -> 0..SMAX]]} /\ Norm2(arr) > 0 /\ cur = arr /\ done = 0 /\ sg = <<1>> /\ tol \in 1..(TOLS - 1)
ModeNext == /\ done < 3
            /\ LET s2 == Slice2(cur, done + 1)
                   r == Min2(s2, tol, TOLS, DIV)
               IN cur' = Project(cur, done + 1, KeptIdx(s2, r))
            /\ done' = done + 1 /\ UNCHANGED <<arr, sg, tol, conf, hist>>
ModeLaw == done = 3 => TOLS * TOLS * Err2(arr, cur) <= tol * tol * Norm2(arr)
(* ------------------------------------------------------------ model C     *)
(* histories of one object: who may change what                              *)
HInit == conf = [p |-> 1, mr |-> 0] /\ hist = <<>> /\ sg = <<1>> /\ tol = 1 /\ arr = 0 /\ done = 0 /\ cur = 0
Uses == {"svd", "hosvd", "hsvd", "hsvdtree", "ttsvd", "truncate"}
HNext == /\ Len(hist) < NS
         /\ \/ \E t \in 0..4 : conf' = [conf EXCEPT !.p = t] /\ hist' = Append(hist, [k |-> "settol", v |-> t, u |-> 0])
            \/ \E m \in 0..3 : conf' = [conf EXCEPT !.mr = m] /\ hist' = Append(hist, [k |-> "setmax", v |-> m, u |-> 0])
            \/ \E u \in Uses, t \in 1..6 : UNCHANGED conf /\ hist' = Append(hist, [k |-> u, v |-> t, u |-> 1])
         /\ UNCHANGED <<sg, tol, arr, done, cur>>
OnlyUser == [][\A j \in 1..Len(hist') : j > Len(hist) /\ hist'[j].u = 1 => conf' = conf]_<<conf, hist>>
EmitH == Len(hist) < NS \/ PrintT(ToJson(hist))
=============================================================================
