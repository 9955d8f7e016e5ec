------------------------------ MODULE RankSpec -------------------------------
(* Tree-based ranks: admissibility, exact ranks of matricisations, storage   *)
(* complexities, and admissible corrections of a proposed rank.              *)
(* T: tree; sz[k]: size of dimension k; ina: inactive leaves (rank 0).       *)
EXTENDS TreeSpec
RankAt(T, sz, ina, r, a) == IF T.parent[a] = 0 THEN 1
                            ELSE IF a \in ina THEN sz[PosIn(T.dims, a)] ELSE r[a]
ProdOver(T, sz, ina, r, S) == FoldLeft(LAMBDA acc, b: acc * RankAt(T, sz, ina, r, b), 1, SetToSeq(S))
(* conditions of one active node: <<on itself, on each active child>>        *)
NodeConds(T, sz, ina, r, a) ==
    LET ch == Ch(T, a)
        R(b) == RankAt(T, sz, ina, r, b)
        act == SelectSeq(ch, LAMBDA b: b \notin ina)
    IN IF Leaf(T, a) THEN <<R(a) <= sz[PosIn(T.dims, a)]>>
       ELSE <<R(a) <= ProdOver(T, sz, ina, r, RangeOf(ch))>>
            \o [k \in 1..Len(act) |-> R(act[k]) <= R(a) * ProdOver(T, sz, ina, r, RangeOf(ch) \ {act[k]})]
Admissible(T, sz, ina, r) ==
    /\ \A a \in ina : r[a] = 0
    /\ \A a \in Nodes(T) \ ina : \A k \in 1..Len(NodeConds(T, sz, ina, r, a)) : NodeConds(T, sz, ina, r, a)[k]

(* rank of a matrix modulo a prime, by elimination                           *)
RECURSIVE Elim(_, _, _)
Elim(M, c, p) ==                        \* M: sequence of rows (non-negative), c: column
    IF M = <<>> \/ c > Len(M[1]) THEN 0
    ELSE LET piv == {i \in 1..Len(M) : M[i][c] # 0} IN
         IF piv = {} THEN Elim(M, c + 1, p)
         ELSE LET i0 == Min(piv)
                  P == M[i0]
                  rest == SelectSeq(Iota(Len(M)), LAMBDA i: i # i0)
                  N == TLCEval([k \in 1..Len(rest) |-> LET R == M[rest[k]] IN
                         TLCEval([j \in 1..Len(P) |-> IF R[c] = 0 THEN R[j] ELSE (((R[j] * P[c]) % p) + (p - ((P[j] * R[c]) % p))) % p])])
              IN 1 + Elim(N, c + 1, p)
Rows(A, p) == [i \in 1..A.shape[1] |-> [j \in 1..A.shape[2] |-> A.data[(j - 1) * A.shape[1] + i] % p]]
RankOf(A) == MaxI(Elim(Rows(A, 32749), 1, 32749), Elim(Rows(A, 32719), 1, 32719))

(* corrections: the raises d (node -> raise) are kept as far as possible     *)
Kept(d, S) == [a \in 1..Len(d) |-> IF a \in S THEN 0 ELSE d[a]]
Plus(r, d) == [a \in 1..Len(r) |-> r[a] + d[a]]
Raised(d) == {a \in 1..Len(d) : d[a] # 0}

(* ------------------------------------------------------------------ model *)
CONSTANTS RMAX, SMAX
VARIABLES vT, vsz, vina, vr, phase
Trees == {TrivialTree(1), TrivialTree(2), TrivialTree(3), AddCh(AddCh(TrivialTree(2), 2), 2), AddCh(AddCh(TrivialTree(3), 2), 2),
          AddCh(AddCh(AddCh(AddCh(TrivialTree(2), 2), 2), 3), 3), AddCh(TrivialTree(2), 2)}
Init == /\ vT \in Trees /\ vina \in SUBSET {a \in Nodes(vT) : Leaf(vT, a)} /\ vsz = <<>> /\ vr = <<>> /\ phase = 0
Next == /\ phase = 0 /\ phase' = 1 /\ UNCHANGED <<vT, vina>>
        /\ vsz' \in [1..Len(vT.dims) -> 2..SMAX]
        /\ vr' \in {f \in [Nodes(vT) -> 0..RMAX] : \A a \in Nodes(vT) : IF a \in vina THEN f[a] = 0 ELSE f[a] >= 1 /\ (vT.parent[a] # 0 \/ f[a] = 1)}
(* the ranks of an admissible vector are bounded by the sizes of the         *)
(* matricisation they belong to, and raising one of them step by step from   *)
(* ones never loses admissibility for ever                                   *)
SizeLaw == phase = 1 /\ Admissible(vT, vsz, vina, vr) =>
    \A a \in Nodes(vT) \ vina :
        LET D == DimsOf(vT, a)
            P(S) == FoldLeft(LAMBDA acc, k: acc * vsz[k], 1, SetToSeq(S))
        IN vT.parent[a] = 0 \/ (vr[a] <= P(D) /\ vr[a] <= P((1..Len(vT.dims)) \ D))
OnesLaw == phase = 1 => Admissible(vT, vsz, vina, [a \in Nodes(vT) |-> IF a \in vina THEN 0 ELSE 1])
(* a correction always exists: dropping all the raises                       *)
DropLaw == phase = 1 /\ Admissible(vT, vsz, vina, vr) => LET d == [a \in Nodes(vT) |-> IF a \in vina \/ vT.parent[a] = 0 THEN 0 ELSE 1] IN Admissible(vT, vsz, vina, Plus(vr, Kept(d, Raised(d))))
(* conditions are local: a node admissible with its children fails only      *)
(* through its own vertex                                                    *)
LocalLaw == phase = 1 => \A a \in Nodes(vT) \ vina : Leaf(vT, a) =>
    LET q == [vr EXCEPT ![a] = vsz[PosIn(vT.dims, a)] + 1] IN ~Admissible(vT, vsz, vina, q) \/ vT.parent[a] = 0
=============================================================================
