------------------------------ MODULE StoreSpec ------------------------------
(* A function that stores its evaluations.  Points are 1..P, the underlying  *)
(* function maps p to 10 p; store is the sequence of stored points with      *)
(* their values, log counts the evaluations of every point, hist is the      *)
(* history of requests (with the requested points that were not yet stored   *)
(* and those stored before), replayed on the real code.                      *)
EXTENDS VBase, Json
CONSTANTS P, Q, L
VARIABLES store, log, result, hist
vars == <<store, log, result, hist>>
F(p) == 10 * p
Known == {store[k][1] : k \in 1..Len(store)}
Get(p) == store[CHOOSE k \in 1..Len(store) : store[k][1] = p][2]
Requests == UNION {[1..n -> 1..P] : n \in 0..Q}
Fresh(r) == SelectSeq(r, LAMBDA p: p \notin Known)
Ask(r) == /\ result' = [k \in 1..Len(r) |-> IF r[k] \in Known THEN Get(r[k]) ELSE F(r[k])]
          /\ store' = store \o [k \in 1..Len(Fresh(r)) |-> <<Fresh(r)[k], F(Fresh(r)[k])>>]
          /\ log' = [p \in 1..P |-> log[p] + (IF p \in RangeOf(Fresh(r)) THEN 1 ELSE 0)]
          /\ hist' = Append(hist, [req |-> r, seen |-> Sorted(Known)])
Init == store = <<>> /\ log = [p \in 1..P |-> 0] /\ result = <<>> /\ hist = <<>>
Next == Len(hist) < L /\ \E r \in Requests : Ask(r)
RandReq(n) == [k \in 1..n |-> RandomElement(1..P)]
SimNext == Len(hist) < L /\ \E n \in {RandomElement(0..Q)} : \E r \in {RandReq(n)} : Ask(r)
Faithful == hist = <<>> \/ result = [k \in 1..Len(hist[Len(hist)].req) |-> F(hist[Len(hist)].req[k])]
Once == \A p \in 1..P : log[p] <= 1
Stored == Known = UNION {RangeOf(hist[k].req) : k \in 1..Len(hist)}
View == <<store, log, Len(hist)>>
Emit == Len(hist) < L \/ PrintT(ToJson(hist))
=============================================================================
