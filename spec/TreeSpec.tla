------------------------------ MODULE TreeSpec ------------------------------
(* Abstract dimension trees: T = [parent, dims], parent[a] = parent of node  *)
(* a (0 for the root), dims[k] = leaf carrying dimension k.  Nodes and       *)
(* dimensions are 1-based, the children of a node are ordered by number.     *)
EXTENDS VBase

NN(T) == Len(T.parent)
Nodes(T) == 1..NN(T)
Ch(T, a) == SelectSeq(Iota(NN(T)), LAMBDA b: T.parent[b] = a)
Leaf(T, a) == \A b \in Nodes(T) : T.parent[b] # a
RootOf(T) == CHOOSE a \in Nodes(T) : T.parent[a] = 0
RECURSIVE AscN(_, _, _)
AscN(T, a, fuel) ==                     \* <<parent, grandparent, ...>>; fuel bounds the walk
    IF T.parent[a] = 0 THEN <<>>
    ELSE IF fuel = 0 THEN <<0>>         \* a cycle
    ELSE <<T.parent[a]>> \o AscN(T, T.parent[a], fuel - 1)
Asc(T, a) == AscN(T, a, NN(T))
Level(T, a) == Len(Asc(T, a))
RECURSIVE Desc(_, _)
Desc(T, a) == FlattenSeq([k \in 1..Len(Ch(T, a)) |-> <<Ch(T, a)[k]>> \o Desc(T, Ch(T, a)[k])])
RECURSIVE DimsSeq(_, _)                 \* in the order of the leaves from left to right
DimsSeq(T, a) == IF Leaf(T, a) THEN SelectSeq(Iota(Len(T.dims)), LAMBDA k: T.dims[k] = a)
                 ELSE FlattenSeq([k \in 1..Len(Ch(T, a)) |-> DimsSeq(T, Ch(T, a)[k])])
DimsOf(T, a) == RangeOf(DimsSeq(T, a))

WFTree(T) ==
    /\ NN(T) >= 1
    /\ \A a \in Nodes(T) : T.parent[a] \in 0..NN(T)
    /\ Cardinality({a \in Nodes(T) : T.parent[a] = 0}) = 1
    /\ \A a \in Nodes(T) : 0 \notin RangeOf(Asc(T, a))
    /\ NoDup(T.dims)
    /\ RangeOf(T.dims) = {a \in Nodes(T) : Leaf(T, a)}

(* equality of structure and dimensions, whatever the numbers of the nodes   *)
Canon(T) == [n |-> NN(T), d |-> Len(T.dims), ld |-> {<<Level(T, a), DimsOf(T, a)>> : a \in Nodes(T)}]
SameTree(T, U) == Canon(T) = Canon(U)
Iso(T, U) == /\ NN(T) = NN(U) /\ Len(T.dims) = Len(U.dims)
             /\ \E f \in Permutations(Nodes(T)) :
                   /\ \A k \in 1..Len(T.dims) : f[T.dims[k]] = U.dims[k]
                   /\ \A a \in Nodes(T) : IF T.parent[a] = 0 THEN U.parent[f[a]] = 0
                                          ELSE U.parent[f[a]] = f[T.parent[a]]
Edges(T) == {{a, T.parent[a]} : a \in {b \in Nodes(T) : T.parent[b] # 0}}

(* ------------------------------------------------------ transformations   *)
PermuteD(T, s)  == [T EXCEPT !.dims = [j \in 1..Len(s) |-> T.dims[PosIn(s, j)]]]   \* dimension k becomes s[k]
IPermuteD(T, s) == [T EXCEPT !.dims = Sel(T.dims, s)]
Flip(T, a) ==                           \* the edges of the path from a to the root are reversed
    LET path == <<a>> \o Asc(T, a)
    IN [b \in Nodes(T) |->
          IF b = a THEN 0
          ELSE IF b \in RangeOf(path) THEN path[PosIn(path, b) - 1]
          ELSE T.parent[b]]
ReRoot(T, a) ==
    IF Leaf(T, a) /\ T.parent[a] # 0
    THEN [parent |-> Append(Flip(T, a), a), dims |-> [k \in 1..Len(T.dims) |-> IF T.dims[k] = a THEN NN(T) + 1 ELSE T.dims[k]]]
    ELSE [parent |-> Flip(T, a), dims |-> T.dims]
CanReRoot(T, a) == T.parent[a] = 0 \/ Len(Ch(T, RootOf(T))) >= 2      \* the old root must not become a leaf
PathOf(T, a) == RangeOf(<<a>> \o Asc(T, a))
AddCh(T, a) ==
    [parent |-> Append(T.parent, a),
     dims |-> IF Leaf(T, a) THEN [k \in 1..Len(T.dims) |-> IF T.dims[k] = a THEN NN(T) + 1 ELSE T.dims[k]]
              ELSE Append(T.dims, NN(T) + 1)]
SubNodes(T, a) == <<a>> \o Desc(T, a)
SubTree(T, a) ==
    LET nod == SubNodes(T, a)
        ds == DimsSeq(T, a)
    IN [parent |-> [k \in 1..Len(nod) |-> IF k = 1 THEN 0 ELSE PosIn(nod, T.parent[nod[k]])],
        dims |-> [k \in 1..Len(ds) |-> PosIn(nod, T.dims[ds[k]])]]
Relabel(T, f) == [parent |-> [b \in Nodes(T) |-> LET a == PosIn(f, b) IN IF T.parent[a] = 0 THEN 0 ELSE f[T.parent[a]]],
                  dims |-> [k \in 1..Len(T.dims) |-> f[T.dims[k]]]]
NodesWithDims(T, S) == SelectSeq(Iota(NN(T)), LAMBDA a: DimsOf(T, a) = S)

(* -------------------------------------------------------------- families  *)
TrivialTree(d) == [parent |-> [a \in 1..(d + 1) |-> IF a = 1 THEN 0 ELSE 1], dims |-> [k \in 1..d |-> k + 1]]
(* linear tree over the dimensions o[1], ..., o[d]: the sets of dimensions   *)
(* of its internal nodes are the beginnings of o                             *)
IsLinear(T, o) ==
    LET d == Len(o)
        Beg(k) == {o[j] : j \in 1..k}
    IN /\ NN(T) = 2 * d - 1 /\ Len(T.dims) = d
       /\ {DimsOf(T, a) : a \in Nodes(T)} = {Beg(k) : k \in 1..d} \cup {{k} : k \in 1..d}
IsBalanced(T, d) ==
    /\ NN(T) = 2 * d - 1 /\ Len(T.dims) = d
    /\ \A a \in Nodes(T) : Leaf(T, a) \/ Len(Ch(T, a)) = 2
    /\ \A a, b \in RangeOf(T.dims) : Level(T, a) - Level(T, b) <= 1
ArityIn(T, lo, hi) ==
    \A a \in Nodes(T) : Leaf(T, a) \/ Len(Ch(T, a)) \in MinI(lo, Cardinality(DimsOf(T, a)))..hi

(* ------------------------------- what the queries of a tree must answer   *)
MaxCh(T) == Max({Len(Ch(T, a)) : a \in Nodes(T)})
Pad(s, n) == [k \in 1..n |-> IF k <= Len(s) THEN s[k] ELSE 0]
BadQueries(T, q) ==
    LET n == NN(T) IN
    (IF q.nb_nodes = n /\ q.nodes_indices = Iota(n) THEN {} ELSE {"nb_nodes"})
    \cup (IF q.root = RootOf(T) THEN {} ELSE {"root"})
    \cup (IF q.arity = MaxCh(T) THEN {} ELSE {"arity"})
    \cup (IF q.parent = T.parent THEN {} ELSE {"parent"})
    \cup (IF q.children = [a \in 1..n |-> Ch(T, a)] THEN {} ELSE {"children"})
    \cup (IF q.child_number = [a \in 1..n |-> IF T.parent[a] = 0 THEN 0 ELSE PosIn(Ch(T, T.parent[a]), a)] THEN {} ELSE {"child_number"})
    \cup (IF q.sibling = [a \in 1..n |-> IF T.parent[a] = 0 THEN <<>> ELSE Ch(T, T.parent[a])] THEN {} ELSE {"sibling"})
    \cup (IF q.level = [a \in 1..n |-> Level(T, a)] THEN {} ELSE {"level"})
    \cup (IF q.with_level = [l \in 1..(Max({Level(T, a) : a \in Nodes(T)}) + 2) |->
                               SelectSeq(Iota(n), LAMBDA a: Level(T, a) = l - 1)] THEN {} ELSE {"nodes_with_level"})
    \cup (IF q.ascendants = [a \in 1..n |-> Asc(T, a)] THEN {} ELSE {"ascendants"})
    \cup (IF \A a \in 1..n : NoDup(q.descendants[a]) /\ RangeOf(q.descendants[a]) = RangeOf(Desc(T, a)) THEN {} ELSE {"descendants"})
    \cup (IF q.is_leaf = [a \in 1..n |-> Leaf(T, a)] THEN {} ELSE {"is_leaf"})
    \cup (IF q.internal = SelectSeq(Iota(n), LAMBDA a: ~Leaf(T, a)) THEN {} ELSE {"internal_nodes"})
    \cup (IF n = 1 \/ q.parents_of_leaves = SelectSeq(Iota(n), LAMBDA a: \E b \in 1..n : Leaf(T, b) /\ T.parent[b] = a) THEN {} ELSE {"parents_of_leaves"})
    \cup (IF \A a \in 1..n : NoDup(q.dims[a]) /\ RangeOf(q.dims[a]) = DimsOf(T, a) THEN {} ELSE {"dims"})
    \cup (IF q.with_dims = [a \in 1..n |-> NodesWithDims(T, DimsOf(T, a))] THEN {} ELSE {"node_with_dims"})
    \cup (IF q.no_dims = NodesWithDims(T, RangeOf(q.some_dims)) THEN {} ELSE {"node_with_dims(other)"})
    \* the layout for plotting: parents above their children, no crossing, in the unit square
    \cup (IF n = 1 \/ /\ \A a \in 1..n : q.layout[a][1] \in 0..1000000 /\ q.layout[a][2] \in 0..1000000
                      /\ \A a \in 1..n : T.parent[a] # 0 => q.layout[T.parent[a]][2] > q.layout[a][2]
                      /\ \A a \in 1..n, k \in RangeOf(T.dims) :        \* no crossing: only the leaves below a are below a
                            LET below == {q.layout[T.dims[m]][1] : m \in DimsOf(T, a)} IN
                            Leaf(T, k) /\ a # k => ((q.layout[k][1] >= Min(below) /\ q.layout[k][1] <= Max(below)) <=> k \in RangeOf(Desc(T, a)))
          THEN {} ELSE {"layout"})
=============================================================================
