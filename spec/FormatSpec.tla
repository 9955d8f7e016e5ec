----------------------------- MODULE FormatSpec -----------------------------
(* What each storage format denotes.  Objects are records tagged by fmt:     *)
(*  full      shape, data                                                     *)
(*  canonical core: <<c_1..c_r>>, space: sequence of matrices (order-2 T)     *)
(*  diagonal  data: <<c_1..c_r>>, order                                       *)
(*  sparse    shape, indices (1-based, sequence of multi-indices), vals       *)
(*  tree      parent (0 for the root), ch (children in order), dims (node of  *)
(*            each dimension), act (active nodes), nodes (sequence of T, the  *)
(*            inactive ones empty), shape                                     *)
EXTENDS TensorSpec

DenCanonical(o) ==
    LET r == Len(o.core)
        d == Len(o.space)
    IN Ten([k \in 1..d |-> o.space[k].shape[1]], LAMBDA ix:
          SumTo(r, LAMBDA q: o.core[q] * ProdTo(d, LAMBDA k: o.space[k].data[(q - 1) * o.space[k].shape[1] + ix[k]])))
DenDiagonal(o) == DiagTensor(o.data, o.order)
DenSparse(o) ==
    Ten(o.shape, LAMBDA ix:
        FoldLeft(LAMBDA acc, n: IF o.indices[n] = ix THEN acc + o.vals[n] ELSE acc, 0, Iota(Len(o.vals))))

(* ---- tree-based format: value of node a = [dims, ten], ten having one     *)
(* mode per dimension below a (in that order) and a last rank mode           *)
RECURSIVE NodeValue(_, _)
NodeValue(o, a) ==
    IF o.ch[a] = <<>>
    THEN [dims |-> <<PosIn(o.dims, a)>>, ten |-> o.nodes[a]]
    ELSE LET RECURSIVE Fold(_, _, _)
             (* acc: tensor with modes (dims gathered so far..., remaining   *)
             (* children modes..., rank mode); m: modes already expanded      *)
             Fold(acc, ds, k) ==
               IF k > Len(o.ch[a]) THEN [dims |-> ds, ten |-> acc]
               ELSE LET c == o.ch[a][k]
                        m == Len(ds) + 1                   \* position of child k's mode in acc
                    IN IF ~o.act[c]
                       THEN Fold(acc, Append(ds, PosIn(o.dims, c)), k + 1)
                       ELSE LET v == NodeValue(o, c)
                                con == Contract(acc, v.ten, <<m>>, <<Order(v.ten)>>)
                                (* modes of con: acc's without m, then v's dims *)
                                na == Order(acc) - 1
                                nv == Order(v.ten) - 1
                                perm == [q \in 1..(na + nv) |->
                                           IF q <= Len(ds) THEN q
                                           ELSE IF q <= Len(ds) + nv THEN na + (q - Len(ds))
                                           ELSE q - nv]
                            IN Fold(Transpose(con, perm), ds \o v.dims, k + 1)
         IN Fold(o.nodes[a], <<>>, 1)
TreeRoot(o) == CHOOSE a \in 1..Len(o.parent) : o.parent[a] = 0
DenTree(o) ==
    LET v0 == NodeValue(o, TreeRoot(o))
        (* the only node of a tree with one dimension may carry a rank mode of size one *)
        v == IF Len(o.parent) = 1 /\ Order(v0.ten) = 2 /\ v0.ten.shape[2] = 1
             THEN [dims |-> v0.dims, ten |-> Drop(v0.ten, <<2>>)] ELSE v0
        d == Len(o.dims)
        extra == Order(v.ten) - Len(v.dims)
    IN Transpose(v.ten, [q \in 1..(d + extra) |-> IF q <= d THEN PosIn(v.dims, q) ELSE q])
DenFull(o) == [shape |-> o.shape, data |-> o.data]
Denote(o) ==
    CASE o.fmt = "full"      -> DenFull(o)
      [] o.fmt = "canonical" -> DenCanonical(o)
      [] o.fmt = "diagonal"  -> DenDiagonal(o)
      [] o.fmt = "sparse"    -> DenSparse(o)
      [] o.fmt = "tree"      -> DenTree(o)

(* structural sanity of an object (what makes Denote meaningful)             *)
WF(o) ==
    CASE o.fmt = "full" -> Len(o.data) = Size(o.shape)
      [] o.fmt = "canonical" -> \A k \in 1..Len(o.space) : Len(o.space[k].shape) = 2 /\ o.space[k].shape[2] = Len(o.core)
      [] o.fmt = "diagonal" -> o.order >= 1
      [] o.fmt = "sparse" -> /\ Len(o.vals) = Len(o.indices)
                             /\ \A n \in 1..Len(o.indices) : IdxInShape(o.shape, o.indices[n])
      [] o.fmt = "tree" ->
           /\ Cardinality({a \in 1..Len(o.parent) : o.parent[a] = 0}) = 1
           /\ \A a \in 1..Len(o.parent) :
                o.act[a] =>
                  LET sh == o.nodes[a].shape
                      nc == Len(o.ch[a])
                  IN /\ IF nc = 0 THEN (Len(sh) = 2 \/ (o.parent[a] = 0 /\ Len(sh) = 1)) /\ a \in RangeOf(o.dims)
                        ELSE IF o.parent[a] # 0 THEN Len(sh) = nc + 1 ELSE Len(sh) \in {nc, nc + 1}
                     /\ \A k \in 1..nc : LET c == o.ch[a][k] IN
                          o.act[c] => o.nodes[c].shape[Len(o.nodes[c].shape)] = sh[k]
           /\ \A a \in 1..Len(o.parent) : ~o.act[a] => o.ch[a] = <<>> /\ a \in RangeOf(o.dims)
=============================================================================
