------------------------------ MODULE C08Trace ------------------------------
EXTENDS FormatSpec, TraceBase
O == INSTANCE OrthSpec WITH E <- 1, leaf1 <- 0, inner <- 0, root <- 0
Near(A, B, tol) == A.shape = B.shape /\ \A p \in 1..Len(A.data) : AbsI(A.data[p] - B.data[p]) <= tol
Back(r) == IF [shape |-> r.back.shape, data |-> r.back.data] = Denote(r.x) THEN {} ELSE {"tensor_changed"}
Eyes(gs) == IF \A k \in 1..Len(gs) : O!NearEye(gs[k], 1000000, 50) THEN {} ELSE {"not_orthonormal"}
Flags(r, o, n) == IF r.is_orth = o /\ r.orth_node = n THEN {} ELSE {"flags"}
(* dimensions below node a (r.below, increasing) matricised against the rest; a root rank is a last mode *)
MatOf(r, dims) == O!Mat(Denote(r.x), dims)
Bad1(r) ==
    CASE r.op = "fullorth" -> Back(r) \cup Eyes(r.grams)
                              \cup (IF r.is_orth /\ r.orth_dim = r.dim THEN {} ELSE {"flags"})
                              \cup (IF r.rshape = [k \in 1..Len(r.x.shape) |-> IF k = r.dim + 1
                                      THEN MinI(r.x.shape[k], Size(r.x.shape) \div r.x.shape[k]) ELSE r.x.shape[k]] THEN {} ELSE {"shape"})
      [] r.op = "canonicalorth" -> Back(r) \cup Eyes(r.grams)
      [] r.op = "treeorth" ->
           Back(r) \cup Eyes(r.grams) \cup Flags(r, TRUE, r.root)
           \cup (IF r.tree.parent = r.x.parent /\ r.tree.dims = r.x.dims /\ r.act = r.x.act /\ r.ranks = r.modes THEN {} ELSE {"structure"})
           \cup (IF r.norm2 = Norm2(Denote(r.x)) THEN {} ELSE {"norm"})
      [] r.op = "orthat" ->
           Back(r) \cup Eyes(r.grams)
           \cup (IF (r.orth_node = r.a \/ Norm2(Denote(r.x)) = 0) /\ r.tree.parent = r.x.parent /\ r.tree.dims = r.x.dims /\ r.act = r.x.act /\ r.ranks = r.modes THEN {} ELSE {"structure"})
           \cup (IF r.norm2 = Norm2(Denote(r.x)) THEN {} ELSE {"norm"})
           \* the functions multiplying those of the node are orthonormal, except for the zero tensor
           \cup (IF Norm2(Denote(r.x)) = 0 \/ O!NearEye(r.above, 1000000, 200) THEN {} ELSE {"above_not_orthonormal"})
      [] r.op = "gramians" ->
           Back(r) \cup Eyes(r.grams)
           \cup UNION {IF r.none[k] THEN (IF r.isnone[k] THEN {} ELSE {"inactive_gramian"})
                       ELSE IF ~r.isnone[k] /\ r.ugu[k] = O!GramOf(MatOf(r, r.below[k])) THEN {} ELSE {"gramian"} : k \in 1..Len(r.below)}
      [] r.op = "singular" ->
           UNION {IF r.none[k] THEN (IF r.isnone[k] THEN {} ELSE {"inactive_values"})
                  ELSE (IF ~r.isnone[k] /\ r.sums[k] = O!PowerSums(MatOf(r, r.below[k])) THEN {} ELSE {"singular_values"})
                       \cup (IF \A j \in 1..(Len(r.values[k]) - 1) : r.values[k][j] >= r.values[k][j + 1] THEN {} ELSE {"order"}) : k \in 1..Len(r.below)}
      [] r.op = "svals" -> (IF r.sums = O!PowerSums(MatOf(r, r.below)) THEN {} ELSE {"singular_values"})
      [] r.op = "pca" ->   \* the first columns of an orthonormal basis of principal directions
           Eyes(r.grams)
           \cup (IF r.count = r.want /\ r.offdiag THEN {} ELSE {"count"})
           \cup (IF \A j \in 1..Len(r.diag) : AbsI(r.diag[j] - r.seen[j]) <= 2 /\ AbsI(r.diag[j] - r.best[j]) <= 2 /\ (j = 1 \/ r.diag[j - 1] >= r.diag[j] - 1) THEN {} ELSE {"captured"})
           \cup (IF ~r.full \/ r.sums = O!PowerSums(MatOf(r, r.below)) THEN {} ELSE {"singular_values"})
      [] r.op = "derived" ->   \* an operation on an orthogonalised tensor: the announcements must still hold
           (IF r.norm2 = r.dense2 THEN {} ELSE {"norm"})
           \cup (IF r.is_orth /\ r.orth_node = r.root THEN Eyes(r.grams) ELSE {})
Bad(r) == IF r.err # "" THEN {"exception"} ELSE Bad1(r)
Chk == Report(vLine, Bad(Recs[vLine]))
=============================================================================
