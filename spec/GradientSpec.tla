---------------------------- MODULE GradientSpec ----------------------------
(* Gradients with respect to one parameter (C11).  A tree tensor is linear   *)
(* in each node tensor: column p of the gradient is the function obtained    *)
(* by substituting the p-th unit tensor for the parameter and evaluating at  *)
(* the given points (rows of the matrices r.mats).                           *)
EXTENDS FormatSpec

Unit(shape, p) == [shape |-> shape, data |-> [q \in 1..Size(shape) |-> IF q = p THEN 1 ELSE 0]]
WithNode(o, a, T) == [o EXCEPT !.nodes[a] = T]
(* values at the points: shape <<N>> or <<N, R>> for vector-valued trees *)
Values(o, mats) ==
    LET X == Denote(o)
        d == Len(o.dims)
    IN DiagModes(ModeProds(X, mats, Iota(d)), Iota(d))
RootRank(o) == LET rt == TreeRoot(o) sh == o.nodes[rt].shape
               IN IF Len(sh) > Len(o.ch[rt]) THEN sh[Len(sh)] ELSE 1
GradTree(o, mats, a) ==
    LET N == mats[1].shape[1]
        full == o.nodes[a].shape
        R == RootRank(o)
        isroot == o.parent[a] = 0
        (* parameter of the root: one column per entry, shared by the outputs *)
        psh == IF isroot /\ R > 1 THEN SubSeq(full, 1, Len(full) - 1) ELSE full
        np == Size(psh)
        nout == IF isroot THEN 1 ELSE R
        cols == [p \in 1..np |-> Values(WithNode(o, a, Unit(full, p)), mats)]
    IN [shape |-> <<N>> \o psh \o (IF nout > 1 THEN <<nout>> ELSE <<>>),
        data |-> [q \in 1..(N * np * nout) |->
                    LET n == ((q - 1) % N) + 1
                        p == (((q - 1) \div N) % np) + 1
                        t == ((q - 1) \div (N * np)) + 1
                    IN cols[p].data[n + N * (t - 1)]]]

(* pair (a, parent of a) merged into one parameter: the node tensor of a is  *)
(* replaced by the identity between its modes and its (enlarged) rank, so    *)
(* that the merged tensor becomes the node tensor of the parent              *)
GradPair(o, mats, a) ==
    LET g == o.parent[a]
        sha == o.nodes[a].shape
        shm == SubSeq(sha, 1, Len(sha) - 1)
        Ra == Size(shm)
        ka == PosIn(o.ch[g], a)
        shg == SetPos(o.nodes[g].shape, ka, Ra)
        o2 == [o EXCEPT !.nodes[a] = [shape |-> shm \o <<Ra>>, data |-> Eye(Ra).data],
                        !.nodes[g] = [shape |-> shg, data |-> [q \in 1..Size(shg) |-> 0]]]
        G == GradTree(o2, mats, g)                    \* <<N>> \o shg
        H == Transpose(G, <<1, 1 + ka>> \o [k \in 1..(Order(G) - 2) |-> IF k < ka THEN k + 1 ELSE k + 2])
    IN Reshape(H, <<G.shape[1]>> \o shm \o Tail(Tail(H.shape)))

(* canonical tensors: a factor parameter carries the weights (core of ones)  *)
GradCanonical(o, mats, mu) ==
    LET d == Len(o.space)
        rk == Len(o.core)
        N == mats[1].shape[1]
        Val(oo) == DiagModes(ModeProds(Denote(oo), mats, Iota(d)), Iota(d))
    IN IF mu = d + 1
       THEN LET cols == [p \in 1..rk |-> Val([o EXCEPT !.core = [q \in 1..rk |-> IF q = p THEN 1 ELSE 0]])]
            IN [shape |-> <<N, rk>>, data |-> [q \in 1..(N * rk) |-> cols[((q - 1) \div N) + 1].data[((q - 1) % N) + 1]]]
       ELSE LET n == o.space[mu].shape[1]
                o1 == [o EXCEPT !.core = [q \in 1..rk |-> 1]]
                cols == [p \in 1..(n * rk) |-> Val([o1 EXCEPT !.space[mu] = Unit(<<n, rk>>, p)])]
                (* the code returns (point, rank, basis function) *)
            IN Ten(<<N, rk, n>>, LAMBDA ix: cols[(ix[2] - 1) * n + ix[3]].data[ix[1]])

(* identity in place of the matrices: other modes on the diagonal, own mode free *)
GradFreeTree(o, a) ==
    LET k == PosIn(o.dims, a)
        d == Len(o.dims)
        psh == o.nodes[a].shape
        others == OtherPos(d, <<k>>)
        N == Denote(o).shape[others[1]]
        Val(p) == LET D == DiagModes(Denote(WithNode(o, a, Unit(psh, p))), others)
                  IN IF others[1] < k THEN D ELSE Transpose(D, <<2, 1>>)      \* (N, n)
        cols == [p \in 1..Size(psh) |-> Val(p)]
    IN Ten(<<N, psh[1]>> \o psh, LAMBDA ix: At(cols[ix[3] + (ix[4] - 1) * psh[1]], <<ix[1], ix[2]>>))
GradFreeCanonical(o, mu) ==
    LET d == Len(o.space)
        rk == Len(o.core)
        n == o.space[mu].shape[1]
        others == OtherPos(d, <<mu>>)
        N == o.space[others[1]].shape[1]
    IN Ten(<<N, rk, n, n>>, LAMBDA ix:
          IF ix[3] = ix[4]
          THEN ProdTo(Len(others), LAMBDA j: o.space[others[j]].data[(ix[2] - 1) * N + ix[1]]) ELSE 0)
(* applying the gradient to a parameter *)
Apply(G, C, nm) == Contract(G, C, [k \in 1..nm |-> k + 1], Iota(nm))

(* low-rank form of the pair gradient: one factor per node of the pair.  At  *)
(* each point their outer product is the pair gradient; the factor of a leaf *)
(* is the evaluation of its basis.                                           *)
OuterPoints(A, B) ==
    Ten(<<A.shape[1]>> \o Tail(A.shape) \o Tail(B.shape), LAMBDA ix:
          At(A, SubSeq(ix, 1, Len(A.shape))) * At(B, <<ix[1]>> \o SubSeq(ix, Len(A.shape) + 1, Len(ix))))
BadLowRank(r) ==
    LET A == Denote(r.ga)
        B == Denote(r.gg)
        N == r.mats[1].shape[1]
        sha == r.x.nodes[r.a].shape
        E == GradPair(r.x, r.mats, r.a)
    IN IF A.shape # <<N>> \o SubSeq(sha, 1, Len(sha) - 1) THEN {"shape"}
       ELSE IF B.shape = <<>> \/ B.shape[1] # N THEN {"shape"}
       ELSE LET O == OuterPoints(A, B)
            IN (IF O.shape # E.shape THEN {"shape"} ELSE IF O.data # E.data THEN {"gradient"} ELSE {})
               \cup (IF r.x.ch[r.a] = <<>> /\ A.data # r.mats[PosIn(r.x.dims, r.a)].data THEN {"factor"} ELSE {})

BadGrad(r) ==
    IF r.err # "" THEN {"exception"}
    ELSE IF r.op = "lowrank" THEN BadLowRank(r)
    ELSE LET O == Denote(r.out)
             E == CASE r.op = "tree" -> GradTree(r.x, r.mats, r.a)
                    [] r.op = "pair" -> GradPair(r.x, r.mats, r.a)
                    [] r.op = "canonical" -> GradCanonical(r.x, r.mats, r.a)
                    [] r.op = "freetree" -> GradFreeTree(r.x, r.a)
                    [] r.op = "freecanonical" -> GradFreeCanonical(r.x, r.a)
         IN (IF O.shape # E.shape THEN {"shape"} ELSE IF O.data # E.data THEN {"gradient"} ELSE {})
            \cup (IF r.op = "tree" /\ O.shape = E.shape /\ r.x.parent[r.a] # 0
                     /\ Apply(O, r.x.nodes[r.a], Len(r.x.nodes[r.a].shape)).data # Values(r.x, r.mats).data
                  THEN {"reproduction"} ELSE {})
=============================================================================
