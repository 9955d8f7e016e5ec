--------------------------- MODULE MultiIndexGen ---------------------------
(* Behaviours of a program deriving index sets from one another.             *)
(* Mode "sets": enumerate all the nonempty subsets of {0..N-1}^D             *)
(* Mode "runs": random behaviours of L steps (TLC -simulate)                 *)
(* Mode "laws": all the subsets, with the lattice laws as invariants         *)
EXTENDS MultiIndexSpec, Json
CONSTANTS D, NN, L
VARIABLES pool, ops

Cube == Box([k \in 1..D |-> NN - 1], 0)
SetSeq(S) == SetToSortSeq(S, LAMBDA a, b: a # b /\ LexLe(a, b, Iota(Len(a))))
EmitSet == PrintT(ToJson(SetSeq(pool[1])))
InitSets == \E S \in SUBSET Cube : S # {} /\ pool = <<S>> /\ ops = <<>>
Stay == FALSE /\ UNCHANGED <<pool, ops>>

(* laws relating the definitions: the specification is not vacuous           *)
Laws ==
    LET I == pool[1]
        M == Margin(I)
        R == Reduced(I)
    IN /\ M \cap I = {}
       /\ R \subseteq M
       /\ DownClosed(DownClosure(I, 0), 0)
       /\ I \subseteq DownClosure(I, 0)
       /\ Maximal(I) # {}
       /\ DownClosure(Maximal(I), 0) = DownClosure(I, 0)
       /\ (DownClosed(I, 0) => /\ \A j \in R : DownClosed(I \cup {j}, 0)
                               /\ \A j \in M : DownClosed(I \cup {j}, 0) => j \in R
                               /\ \A i \in Maximal(I) : DownClosed(I \ {i}, 0)
                               /\ \A i \in Maximal(I) : \A k \in Dims(i) : Up(i, k) \notin I
                               /\ R # {})

(* random behaviours *)
Small == {S \in SUBSET Cube : Cardinality(S) \in 1..4}
InitRuns == /\ pool = << DownClosure({CHOOSE x \in Cube : TRUE}, 0) >>
            /\ ops = <<>>
AsSeqs == [k \in 1..Len(pool) |-> SetSeq(pool[k])]
dimOf(k) == Len(CHOOSE i \in pool[k] : TRUE)
Binary == {"union", "diff", "inter"}
Unary == {"margin", "reduced", "addmargin", "addreduced", "maximal", "dropmax", "sort"}
Do(op) == LET R == Step(AsSeqs, op)
          IN /\ R # {} /\ Cardinality(R) <= 30
             /\ \A i \in R : \A k \in Dims(i) : i[k] \in 0..6
             /\ Len(CHOOSE i \in R : TRUE) <= 4
             /\ pool' = Append(pool, R) /\ ops' = Append(ops, op)
NextRuns ==
    /\ Len(ops) < L
    /\ \E a \in 1..Len(pool), b \in 1..Len(pool) :
       \/ \E k \in Binary : dimOf(a) = dimOf(b) /\ Do([k |-> k, a |-> a, b |-> b, v |-> <<>>])
       \/ \E k \in Unary : b = a /\ (k \in {"maximal", "dropmax"} => DownClosed(pool[a], 0))
                                 /\ Do([k |-> k, a |-> a, b |-> a, v |-> <<>>])
       \/ \E k \in {"shift", "unshift"} : b = a /\ \E v \in [1..dimOf(a) -> 0..1] : Do([k |-> k, a |-> a, b |-> a, v |-> v])
       \/ b = a /\ dimOf(a) > 1 /\ \E m \in 1..dimOf(a) :
             \/ Do([k |-> "keepdims", a |-> a, b |-> a, v |-> <<m>>])
             \/ Do([k |-> "remdims", a |-> a, b |-> a, v |-> <<m>>])
       \/ dimOf(a) + dimOf(b) <= 4 /\ Do([k |-> "product", a |-> a, b |-> b, v |-> <<>>])
EmitRun == Len(ops) < L \/ PrintT(ToJson([init |-> SetSeq(pool[1]), ops |-> ops]))
=============================================================================
