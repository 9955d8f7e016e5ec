------------------------------ MODULE TreeGen -------------------------------
(* State machine of a program deriving dimension trees from one another.     *)
(* Initial states: every tree with at most N0 nodes (all the parent vectors, *)
(* all the assignments of dimensions).  ops is the history, replayed on the  *)
(* real code; the invariants are the laws of the specification.              *)
EXTENDS TreeSpec, Json
CONSTANTS N0, L, NMAX
VARIABLES T0, T, ops
vars == <<T0, T, ops>>

Parents(n) == {p \in [1..n -> 0..n] : Cardinality({a \in 1..n : p[a] = 0}) = 1
                 /\ \A a \in 1..n : 0 \notin RangeOf(AscN([parent |-> p, dims |-> <<>>], a, n))}
TreesOf(n) == UNION {{[parent |-> p, dims |-> d] : d \in
                        LET lv == {a \in 1..n : \A b \in 1..n : p[b] # a} IN
                        {s \in [1..Cardinality(lv) -> lv] : NoDup(s)}} : p \in Parents(n)}
AllTrees == UNION {TreesOf(n) : n \in 1..N0}
Init == T \in AllTrees /\ T0 = T /\ ops = <<>>
(* random walks start from the one-node tree and small combs                 *)
InitRun == T \in {TrivialTree(2), TrivialTree(3), AddCh(TrivialTree(3), 2), AddCh(AddCh(TrivialTree(2), 2), 2)} /\ T0 = T /\ ops = <<>>

Do(U, op) == NN(U) <= NMAX /\ T' = U /\ ops' = Append(ops, op) /\ UNCHANGED T0
PermsOf(n) == {s \in [1..n -> 1..n] : NoDup(s)}
Next == /\ Len(ops) < L
        /\ \/ \E s \in PermsOf(Len(T.dims)) : \/ Do(PermuteD(T, s), [k |-> "permute", a |-> 0, s |-> s])
                                              \/ Do(IPermuteD(T, s), [k |-> "ipermute", a |-> 0, s |-> s])
           \/ \E a \in Nodes(T) : \/ CanReRoot(T, a) /\ Do(ReRoot(T, a), [k |-> "reroot", a |-> a, s |-> <<>>])
                                  \/ Do(AddCh(T, a), [k |-> "add", a |-> a, s |-> <<>>])
                                  \/ Do(SubTree(T, a), [k |-> "sub", a |-> a, s |-> <<>>])
Emit == Len(ops) < L \/ PrintT(ToJson([init |-> T0, ops |-> ops]))
EmitInit == PrintT(ToJson(T))
None == FALSE /\ UNCHANGED vars

(* ----------------------------------------------------------------- laws   *)
WellFormed == WFTree(T)
Laws ==
    /\ \A a \in Nodes(T) : CanReRoot(T, a) =>
          LET U == ReRoot(T, a) IN
          /\ WFTree(U) /\ RootOf(U) = a
          /\ Edges(T) \subseteq Edges(U) /\ (~Leaf(T, a) => Edges(T) = Edges(U))
          /\ \A k \in 1..Len(T.dims) : T.dims[k] # a => U.dims[k] = T.dims[k]
          /\ Len(Ch(T, RootOf(T))) >= 2 /\ ~Leaf(T, a) => ReRoot(U, RootOf(T)) = T
    /\ \A a \in Nodes(T) : LET S == SubTree(T, a)
                               nod == SubNodes(T, a)
                               ds == DimsSeq(T, a) IN
          /\ WFTree(S)
          /\ \A b \in 1..Len(nod) : {ds[k] : k \in DimsOf(S, b)} = DimsOf(T, nod[b])
          /\ \A b \in 1..Len(nod) : Level(S, b) = Level(T, nod[b]) - Level(T, a)
    /\ \A s \in PermsOf(Len(T.dims)) :
          /\ IPermuteD(PermuteD(T, s), s) = T
          /\ \A a \in Nodes(T) : DimsOf(PermuteD(T, s), a) = {s[k] : k \in DimsOf(T, a)}
    /\ \A a \in Nodes(T) : WFTree(AddCh(T, a)) /\ (Leaf(T, a) => Len(AddCh(T, a).dims) = Len(T.dims))
(* two trees are equal exactly when an isomorphism relates them              *)
EqLaw == NN(T) <= 4 => \A U \in TreesOf(NN(T)) : SameTree(T, U) <=> Iso(T, U)
=============================================================================
