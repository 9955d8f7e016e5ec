---------------------------- MODULE ConvertSpec ----------------------------
(* Conversions between formats (C02): the converted object denotes the same  *)
(* array.  Constructions from raw data (tensor-train cores, diagonals, data  *)
(* and a shape, generators) denote the array their documentation defines.    *)
EXTENDS FormatSpec

(* entry of a tensor train: cores c_1 (n1,r1), c_k (r,n_k,r'), c_d (r,n_d)    *)
RECURSIVE TTFold(_, _, _)
TTFold(acc, cores, k) ==
    IF k > Len(cores) THEN acc
    ELSE TTFold(Contract(acc, cores[k], <<Order(acc)>>, <<1>>), cores, k + 1)
TensorTrain(cores) == TTFold(cores[1], cores, 2)

Const(shape, c) == [shape |-> shape, data |-> [p \in 1..Size(shape) |-> c]]
ConstTree(r) ==                                      \* every node tensor filled with c
    Denote([r.x EXCEPT !.nodes = [a \in 1..Len(r.x.nodes) |->
              IF r.x.act[a] THEN Const(r.x.nodes[a].shape, r.c) ELSE r.x.nodes[a]]])
ConvExpected(r) ==
    CASE r.op = "same"    -> Denote(r.x)
      [] r.op = "tt"      -> TensorTrain(r.cores)
      [] r.op = "diag"    -> DiagTensor(r.vals, r.order)
      [] r.op = "data"    -> [shape |-> r.shape, data |-> r.vals]
      [] r.op = "const"   -> Const(r.shape, r.c)
      [] r.op = "constcanonical" -> Const(r.shape, PowI(r.c, Len(r.shape)) * r.rank)
      [] r.op = "constdiag" -> DiagTensor([k \in 1..r.rank |-> r.c], r.order)
      [] r.op = "consttree" -> ConstTree(r)
Announced(r, E) == r.att.rshape = SubSeq(E.shape, 1, Len(r.att.rshape)) /\ r.att.rorder = Len(r.att.rshape)
                   /\ r.att.rndim = r.att.rorder
(* which nodes of the result are active: exactly the ones that must be        *)
ActiveOK(r) == \/ r.out.fmt # "tree" \/ "wantact" \notin DOMAIN r
               \/ r.out.act = r.wantact
TreeKept(r) == \/ r.out.fmt # "tree" \/ "wanttree" \notin DOMAIN r
               \/ (r.out.parent = r.wanttree.parent /\ r.out.dims = r.wanttree.dims)
BadConv(r) ==
    IF r.err # "" THEN {"exception"}
    ELSE IF r.out.fmt # r.want THEN {"format"}
    ELSE IF ~WF(r.out) THEN {"illformed"}
    ELSE LET E == ConvExpected(r)
             O == Denote(r.out)
         IN (IF O.shape # E.shape THEN {"shape"} ELSE IF O.data # E.data THEN {"entries"} ELSE {})
            \cup (IF ~Announced(r, E) THEN {"announced"} ELSE {})
            \cup (IF ~ActiveOK(r) THEN {"active"} ELSE {})
            \cup (IF ~TreeKept(r) THEN {"tree"} ELSE {})
            \cup (IF r.out.fmt = "sparse" /\ \E n, m \in 1..Len(r.out.indices) : n < m /\ r.out.indices[n] = r.out.indices[m]
                  THEN {"duplicates"} ELSE {})
            \cup (IF r.out.fmt = "sparse" /\ \E n \in 1..Len(r.out.vals) : r.out.vals[n] = 0 THEN {"zeros stored"} ELSE {})
=============================================================================
