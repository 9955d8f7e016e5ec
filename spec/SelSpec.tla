------------------------------- MODULE SelSpec -------------------------------
(* Penalised model selection.  A family of models is a sequence of records   *)
(* [pen |-> penalty, risk |-> empirical risk] (integers); a penalisation     *)
(* factor is a rational <<n, d>>, d > 0.                                     *)
EXTENDS VBase, Json
Crit(fam, l, m) == fam[m].risk * l[2] + fam[m].pen * l[1]
MinSet(fam, l) == {m \in 1..Len(fam) : \A k \in 1..Len(fam) : Crit(fam, l, m) <= Crit(fam, l, k)}
Pens(fam, S) == {fam[m].pen : m \in S}
(* the factors at which the selected model changes                           *)
Cross(fam) == {Rat(fam[p[2]].risk - fam[p[1]].risk, fam[p[1]].pen - fam[p[2]].pen) :
                 p \in {q \in (1..Len(fam)) \X (1..Len(fam)) : fam[q[1]].pen > fam[q[2]].pen /\ fam[q[2]].risk > fam[q[1]].risk}}
Breaks(fam) == {l \in Cross(fam) : Cardinality(Pens(fam, MinSet(fam, l))) > 1}
Path(fam) == SetToSortSeq(Breaks(fam), RLt)
(* models selected just after the factor l: among the minimisers, those of   *)
(* smallest penalty                                                          *)
After(fam, l) == LET S == MinSet(fam, l) IN {m \in S : fam[m].pen = Min(Pens(fam, S))}
Mid(a, b) == Rat(a[1] * b[2] + b[1] * a[2], 2 * a[2] * b[2])
(* the slope heuristic: factors around every change, and the largest jump of *)
(* complexity                                                                *)
Ext(P) == <<Rat(P[1][1], 2 * P[1][2])>> \o P \o <<Rat(2 * P[Len(P)][1], P[Len(P)][2])>>
Mids(P) == LET E == Ext(P) IN [k \in 1..Len(E) - 1 |-> Mid(E[k], E[k + 1])]
Jumps(fam, comp, k) == LET M == Mids(Path(fam)) IN {comp[a] - comp[b] : a \in MinSet(fam, M[k]), b \in MinSet(fam, M[k + 1])}
(* changes k that may be taken as the largest jump (several minimisers of    *)
(* different complexities give several possible jumps)                       *)
Largest(fam, comp) == LET n == Len(Path(fam)) IN
    {k \in 1..n : \A j \in 1..n : Max(Jumps(fam, comp, k)) >= Min(Jumps(fam, comp, j)) /\ (j < k => Max(Jumps(fam, comp, k)) > Min(Jumps(fam, comp, j)))}

(* ------------------------------------------------------------------ model *)
(* the algorithm: from the best model, jump to the model reached first when  *)
(* the factor grows                                                          *)
CONSTANTS N, PMAX, RMAX
VARIABLES fam, cur, at, seen
Fams == UNION {[1..n -> [pen : 0..PMAX, risk : 0..RMAX]] : n \in 1..N}
Init == fam = <<>> /\ cur = 0 /\ at = <<0, 1>> /\ seen = <<>>
Start == fam = <<>> /\ \E f \in Fams : fam' = f /\ cur' \in After(f, <<0, 1>>) /\ UNCHANGED <<at, seen>>
Reach(m) == Rat(fam[m].risk - fam[cur].risk, fam[cur].pen - fam[m].pen)
Lower == {m \in 1..Len(fam) : fam[m].pen < fam[cur].pen}
First == {m \in Lower : \A k \in Lower : ~RLt(Reach(k), Reach(m))}
Jump == fam # <<>> /\ Lower # {} /\ \E m \in First : /\ \A k \in First : fam[m].pen <= fam[k].pen
                                                    /\ cur' = m /\ at' = Reach(m) /\ seen' = Append(seen, Reach(m)) /\ UNCHANGED fam
Next == Start \/ Jump
Minimiser == fam = <<>> \/ cur \in MinSet(fam, at)
Selected == fam = <<>> \/ cur \in After(fam, at)
Ordered == \A k \in 1..Len(seen) - 1 : RLt(seen[k], seen[k + 1])
Sound == \A k \in 1..Len(seen) : seen[k] \in Breaks(fam)
Complete == (fam # <<>> /\ Lower = {}) => RangeOf(seen) = Breaks(fam)
(* between two changes the selection is constant                             *)
Constant == (fam # <<>> /\ Breaks(fam) # {}) =>
    LET M == Mids(Path(fam)) IN \A k \in 1..Len(M) : Cardinality(Pens(fam, MinSet(fam, M[k]))) = 1
Emit == fam = <<>> \/ at[1] # 0 \/ PrintT(ToJson(fam))
=============================================================================
