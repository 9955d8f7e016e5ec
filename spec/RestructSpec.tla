----------------------------- MODULE RestructSpec ----------------------------
(* Restructuring a tree-based tensor.  The state of a representation is its  *)
(* tree T, the set ina of its inactive leaves and the number rr of arrays it *)
(* represents (rank of the root).  Every operation prescribes the new state  *)
(* and keeps the represented array.  ops is the history, replayed on the     *)
(* real code.                                                                *)
EXTENDS TreeSpec, Json
CONSTANTS L, NMAX
VARIABLES T, ina, rr, init, ops
vars == <<T, ina, rr, init, ops>>

(* ------------------------------------------------------------- operations *)
Unrelated(U, a, b) == a # b /\ a \notin RangeOf(Asc(U, b)) /\ b \notin RangeOf(Asc(U, a))
Swap(U, a, b) == [U EXCEPT !.parent = [c \in Nodes(U) |-> IF c = a THEN U.parent[b] ELSE IF c = b THEN U.parent[a] ELSE U.parent[c]]]
(* the place of the leaf of dimension k is taken by the leaf of dimension    *)
(* s[k]; the numbers of the leaves and their dimensions stay                 *)
MoveLeaves(U, s) == [U EXCEPT !.parent = [c \in Nodes(U) |->
                       IF Leaf(U, c) THEN U.parent[U.dims[PosIn(s, PosIn(U.dims, c))]] ELSE U.parent[c]]]
Only(U) == {a \in Nodes(U) : U.parent[a] # 0 /\ Len(Ch(U, U.parent[a])) = 1}
RECURSIVE Kept(_, _)
Kept(U, a) == IF a \in Only(U) THEN Kept(U, U.parent[a]) ELSE a        \* the node a is merged into
Merge(U) == LET keep == Sorted(Nodes(U) \ Only(U)) IN
    [parent |-> [k \in 1..Len(keep) |-> IF U.parent[keep[k]] = 0 THEN 0 ELSE PosIn(keep, Kept(U, U.parent[keep[k]]))],
     dims |-> [k \in 1..Len(U.dims) |-> PosIn(keep, Kept(U, U.dims[k]))]]
MergeIna(U, S) == LET keep == Sorted(Nodes(U) \ Only(U)) IN {PosIn(keep, a) : a \in S \ Only(U)}
CanRoot(U, S, r, a) == a \notin S /\ (a = RootOf(U) \/ r > 1 \/ Len(Ch(U, RootOf(U))) >= 2)
(* the arrays represented at a root of rank r > 1 become a new dimension     *)
Opened(U, r, a) == IF r > 1 /\ a # RootOf(U) THEN AddCh(U, RootOf(U)) ELSE U
Rooted(U, r, a) == ReRoot(Opened(U, r, a), a)
RootedIna(U, S, r, a) ==
    IF a = RootOf(U) THEN S
    ELSE S \cup {b \in (NN(U) + 1)..NN(Rooted(U, r, a)) : TRUE}
LeavesOf(U) == {a \in Nodes(U) : Leaf(U, a) /\ U.parent[a] # 0}

(* ------------------------------------------------------------- behaviours *)
State == [t |-> T, ina |-> ina, rr |-> rr]
Op(k, a, b, s, p) == [k |-> k, a |-> a, b |-> b, s |-> s, p |-> p]
Do(U, S, r, op) == T' = U /\ ina' = S /\ rr' = r /\ ops' = Append(ops, op) /\ UNCHANGED init
PermsOf(n) == {s \in [1..n -> 1..n] : NoDup(s)}
Combs == {TrivialTree(2), TrivialTree(3), AddCh(AddCh(TrivialTree(2), 2), 2), AddCh(AddCh(TrivialTree(3), 2), 2)}
Init == /\ T \in Combs /\ ina \in SUBSET LeavesOf(T) /\ rr \in 1..2
        /\ init = State /\ ops = <<>>
Next == /\ Len(ops) < L /\ NN(T) <= NMAX
        /\ \/ \E a, b \in Nodes(T), p \in {0, 3} : Unrelated(T, a, b) /\ Do(Swap(T, a, b), ina, rr, Op("permnodes", a, b, <<>>, p))
           \/ \E s \in PermsOf(Len(T.dims)), p \in {0, 3} : Do(MoveLeaves(T, s), ina, rr, Op("permleaves", 0, 0, s, p))
           \/ \E a \in Nodes(T) : CanRoot(T, ina, rr, a) /\
                 Do(IF a = RootOf(T) THEN T ELSE Rooted(T, rr, a), RootedIna(T, ina, rr, a), IF a = RootOf(T) THEN rr ELSE 1, Op("changeroot", a, 0, <<>>, 0))
           \/ Do(Merge(T), MergeIna(T, ina), rr, Op("unique", 0, 0, <<>>, 0))
           \/ \E S \in SUBSET LeavesOf(T) : \/ Do(T, ina \cup S, rr, Op("inactivate", 0, 0, Sorted(S), 0))
                                            \/ Do(T, ina \ S, rr, Op("activate", 0, 0, Sorted(S), 0))
View == <<T, ina, rr, Len(ops)>>
(* ---- random walks: a random tree is grown, then restructured              *)
RECURSIVE Grow(_, _)
Grow(U, n) == IF n = 0 THEN U
              ELSE Grow(LET a == RandomElement(Nodes(U)) IN IF Len(U.dims) >= 5 /\ ~Leaf(U, a) THEN U ELSE AddCh(U, a), n - 1)
RandSub(S) == {a \in S : RandomElement(1..2) = 1}
SimInit == /\ T = TrivialTree(1) /\ ina = {} /\ rr = 1 /\ init = State /\ ops = <<>>
SimStart == \E U \in {Grow(TrivialTree(RandomElement(1..4)), RandomElement(0..4))} : \E S \in {RandSub(LeavesOf(U))} : \E r \in {RandomElement({1, 1, 1, 2})} :
               T' = U /\ ina' = S /\ rr' = r /\ init' = [t |-> U, ina |-> S, rr |-> r] /\ ops' = <<Op("start", 0, 0, <<>>, 0)>>
Pairs(U) == {q \in Nodes(U) \X Nodes(U) : Unrelated(U, q[1], q[2])}
Related(U) == {q \in Nodes(U) \X Nodes(U) : q[1] # q[2] /\ ~Unrelated(U, q[1], q[2])}
SimStep(c) ==
    CASE c <= 3 /\ Pairs(T) # {} ->
            \E q \in {RandomElement(Pairs(T))}, p \in {RandomElement({0, 0, 3})} : Do(Swap(T, q[1], q[2]), ina, rr, Op("permnodes", q[1], q[2], <<>>, p))
      [] c = 4 /\ Related(T) # {} -> \E q \in {RandomElement(Related(T))} : Do(T, ina, rr, Op("permbad", q[1], q[2], <<>>, 0))
      [] c = 5 -> \E s \in {RandomElement(PermsOf(Len(T.dims)))}, p \in {RandomElement({0, 0, 3})} : Do(MoveLeaves(T, s), ina, rr, Op("permleaves", 0, 0, s, p))
      [] c \in 6..8 -> \E a \in {RandomElement({b \in Nodes(T) : CanRoot(T, ina, rr, b)})} :
                 Do(IF a = RootOf(T) THEN T ELSE Rooted(T, rr, a), RootedIna(T, ina, rr, a), IF a = RootOf(T) THEN rr ELSE 1, Op("changeroot", a, 0, <<>>, 0))
      [] c = 9 -> Do(Merge(T), MergeIna(T, ina), rr, Op("unique", 0, 0, <<>>, 0))
      [] c = 10 -> \E S \in {RandSub(LeavesOf(T))} : Do(T, ina \cup S, rr, Op("inactivate", 0, 0, Sorted(S), 0))
      [] c = 11 -> \E S \in {RandSub(LeavesOf(T))} : Do(T, ina \ S, rr, Op("activate", 0, 0, Sorted(S), 0))
      [] OTHER -> Do(T, ina, rr, Op("activate", 0, 0, <<>>, 0))
SimNext == IF ops = <<>> THEN SimStart ELSE
           /\ Len(ops) < L + 1 /\ NN(T) <= NMAX
           /\ \E c \in {RandomElement(1..11)} : SimStep(c)
(* the walk may get stuck (small trees): what was done so far is replayed    *)
Emit == ops = <<>> \/ (Len(ops) < L + 1 /\ RandomElement(1..30) # 1) \/ PrintT(ToJson([init |-> init, ops |-> Tail(ops)]))

(* ----------------------------------------------------------------- laws   *)
WellFormed == WFTree(T) /\ ina \subseteq {a \in Nodes(T) : Leaf(T, a)}
Kinds == TRUE
NoOnly == Only(Merge(T)) = {} /\ (Only(T) = {} => Merge(T) = T)
SwapLaw == \A a, b \in Nodes(T) : Unrelated(T, a, b) =>
              LET U == Swap(T, a, b) IN
              /\ WFTree(U) /\ Swap(U, a, b) = T
              /\ DimsOf(U, a) = DimsOf(T, a) /\ DimsOf(U, b) = DimsOf(T, b)
              /\ \A c \in Nodes(T) : Leaf(T, c) <=> Leaf(U, c)
LeavesLaw == \A s \in PermsOf(Len(T.dims)) :
              LET U == MoveLeaves(T, s) IN
              /\ WFTree(U) /\ MoveLeaves(U, InvPerm(s)) = T
              /\ \A c \in Nodes(T) : ~Leaf(T, c) => DimsOf(U, c) = {s[k] : k \in DimsOf(T, c)}
RootLaw == \A a \in Nodes(T) : CanRoot(T, ina, rr, a) /\ a # RootOf(T) =>
              /\ WFTree(Rooted(T, rr, a))
              /\ RootedIna(T, ina, rr, a) \subseteq {b \in Nodes(Rooted(T, rr, a)) : Leaf(Rooted(T, rr, a), b)}
              /\ RootOf(Rooted(T, rr, a)) = a
(* the dimensions never change number, but for the one a root rank opens     *)
DimsStep == [][Len(T'.dims) = Len(T.dims) + (IF rr > 1 /\ rr' = 1 THEN 1 ELSE 0)]_vars
=============================================================================
