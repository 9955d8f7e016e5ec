------------------------------ MODULE RepSpec ------------------------------
(* The formats as representations of one array: a program holds an object o  *)
(* in some format and, as a ghost, the array A it stands for.  Every step    *)
(* transforms o by an algorithm on the representation (concatenation of      *)
(* cores, restriction of Khatri-Rao products, factors moved between nodes,   *)
(* merging of sparse indices, changes of format) and A by the definition of  *)
(* the operation; the invariant is that o stays well formed and denotes A.   *)
(* Entries are drawn from a seed, so that a model is a finite set of         *)
(* programs.                                                                 *)
EXTENDS AlgebraSpec, EvalSpec
CONSTANTS SEEDS, DEPTH, OPS
VARIABLES seed, vO, vA, vK
Mix(s, a, p) == LET h == (s * 7919 + a * 104729 + p * 1299709 + s * a * 31 + s * p * 17) % 1000003 IN ((h \div 7) % 3) - 1
MixN(s, a, n) == ((s * 6997 + a * 7877 + 13) % 10007) % n
Rnd(s, a, shape) == [shape |-> shape, data |-> [p \in 1..Size(shape) |-> Mix(s, a, p)]]
Par == << <<0, 1, 1>>, <<0, 1, 1, 2, 2>>, <<0, 1, 1, 1>>, <<0, 1, 1, 3, 3>> >>
Dms == << <<2, 3>>, <<5, 3, 4>>, <<3, 2, 4>>, <<4, 2, 5>> >>
Kids(par) == [a \in 1..Len(par) |-> SelectSeq(Iota(Len(par)), LAMBDA b: par[b] = a)]
(* a tree tensor of template t: inactive leaves, ranks and sizes from the seed *)
TreeObj(t, s) ==
    LET par == Par[t]
        ch == Kids(par)
        n == Len(par)
        act == [a \in 1..n |-> ch[a] # <<>> \/ MixN(s \div 3, a, 3) # 0]
        rk == [a \in 1..n |-> IF a = 1 THEN 1 + (IF s % 5 = 0 THEN 1 ELSE 0) ELSE 1 + MixN(s, a + t, 2)]
        sz == [j \in 1..Len(Dms[t]) |-> 1 + MixN(s \div 5, j, 2)]
        size(c) == IF act[c] THEN rk[c] ELSE sz[PosIn(Dms[t], c)]
        sh(a) == IF ch[a] = <<>> THEN <<sz[PosIn(Dms[t], a)], rk[a]>>
                 ELSE [j \in 1..Len(ch[a]) |-> size(ch[a][j])] \o (IF a = 1 /\ rk[a] = 1 THEN <<>> ELSE <<rk[a]>>)
    IN [fmt |-> "tree", parent |-> par, ch |-> ch, dims |-> Dms[t], act |-> act,
        nodes |-> TLCEval([a \in 1..n |-> IF act[a] THEN Rnd(s, a, sh(a)) ELSE [shape |-> <<>>, data |-> <<>>]])]
CanObj(s) == LET r == 1 + MixN(s, 3, 2) IN
    [fmt |-> "canonical", core |-> [q \in 1..r |-> Mix(s, 40, q)], space |-> [j \in 1..2 + (s % 2) |-> Rnd(s, j, <<1 + MixN(s, j, 2), r>>)]]
DiaObj(s) == [fmt |-> "diagonal", data |-> [q \in 1..2 |-> Mix(s, 5, q)], order |-> 2 + (s % 2)]
SpaObj(s, sh) == LET P == SelectSeq(Iota(Size(sh)), LAMBDA p: Mix(s, 9, p) # 0) IN
    [fmt |-> "sparse", shape |-> sh, indices |-> [n \in 1..Len(P) |-> UnIdx(sh, P[n])], vals |-> [n \in 1..Len(P) |-> Mix(s, 9, P[n])]]
Start(s) == CASE s % 8 = 0 -> CanObj(s \div 8)
              [] s % 8 = 1 -> DiaObj(s \div 8)
              [] s % 8 = 2 -> SpaObj(s \div 8, <<2, 1 + ((s \div 8) % 2), 2>>)
              [] OTHER -> TreeObj(1 + (s % 4), s)
Init == seed \in 1..SEEDS /\ vO = Start(seed) /\ vA = Denote(Start(seed)) /\ vK = 0

(* ---------------------------- trees ------------------------------------- *)
RankRoot(x) == IF Len(x.nodes[1].shape) > Len(x.ch[1]) THEN x.nodes[1].shape[Len(x.nodes[1].shape)] ELSE 1
LeafPos(x, a) == SelectSeq(Iota(Len(x.ch[a])), LAMBDA j: ~x.act[x.ch[a][j]])
ActPos(x, a) == SelectSeq(Iota(Len(x.ch[a])), LAMBDA j: x.act[x.ch[a][j]])
OnNodes(x, f(_)) == [x EXCEPT !.nodes = TLCEval([a \in 1..Len(x.nodes) |-> IF x.act[a] THEN f(a) ELSE x.nodes[a]])]
TreeScale(x, c) == [x EXCEPT !.nodes[1] = Scale(c, x.nodes[1])]
TreeAdd(x, y) == OnNodes(x, LAMBDA a:
    IF a = 1 /\ ActPos(x, a) = <<>> THEN Add(x.nodes[a], y.nodes[a])
    ELSE Cat(x.nodes[a], y.nodes[a],
        IF a = 1 THEN ActPos(x, a) ELSE IF x.ch[a] = <<>> THEN <<2>> ELSE ActPos(x, a) \o <<Len(x.ch[a]) + 1>>))
(* the product: Khatri-Rao along the modes of the array, Kronecker along ranks *)
Twice(n) == [j \in 1..n |-> (j - 1) * n + j]
TreeHad(x, y) == OnNodes(x, LAMBDA a:
    LET K == Kron(x.nodes[a], y.nodes[a])
        own == IF x.ch[a] = <<>> THEN {1} ELSE RangeOf(LeafPos(x, a)) \cup (IF a = 1 THEN {Len(x.ch[1]) + 1} ELSE {})
    IN SubT(K, [m \in 1..Order(K) |-> IF m \in own THEN Twice(x.nodes[a].shape[m]) ELSE Iota(K.shape[m])]))
(* the operation M along dimension j acts on the leaf or on its parent       *)
TreeMode(x, M, j) ==
    LET a == x.dims[j] IN
    IF x.act[a] THEN [x EXCEPT !.nodes[a] = ModeProd(x.nodes[a], M, 1)]
    ELSE LET p == x.parent[a] IN [x EXCEPT !.nodes[p] = ModeProd(x.nodes[p], M, PosIn(x.ch[p], a))]
TreeSub(x, j, sel) ==
    LET a == x.dims[j]
        b == IF x.act[a] THEN a ELSE x.parent[a]
        m == IF x.act[a] THEN 1 ELSE PosIn(x.ch[b], a)
    IN [x EXCEPT !.nodes[b] = SubT(x.nodes[b], [q \in 1..Order(x.nodes[b]) |-> IF q = m THEN sel ELSE Iota(x.nodes[b].shape[q])])]
(* moving an invertible factor along the edge of node a                      *)
UpM(n) == Ten(<<n, n>>, LAMBDA ix: IF ix[1] = ix[2] THEN 1 ELSE IF ix[1] < ix[2] THEN 1 ELSE 0)
UpInv(n) == Ten(<<n, n>>, LAMBDA ix: IF ix[1] = ix[2] THEN 1 ELSE IF ix[2] = ix[1] + 1 THEN -1 ELSE 0)
Gauge(x, a) ==
    LET p == x.parent[a]
        n == x.nodes[a].shape[Order(x.nodes[a])]
        pos == PosIn(x.ch[p], a)
    IN [x EXCEPT !.nodes[a] = ModeProd(x.nodes[a], MatT(UpM(n)), Order(x.nodes[a])), !.nodes[p] = ModeProd(x.nodes[p], UpInv(n), pos)]
Wake(x, a) ==                                  \* an inactive leaf becomes the identity
    LET p == x.parent[a]
        n == x.nodes[p].shape[PosIn(x.ch[p], a)]
    IN [x EXCEPT !.act[a] = TRUE, !.nodes[a] = Eye(n)]
Sleep(x, a) ==                                 \* an active leaf is absorbed by its parent
    LET p == x.parent[a]
    IN [x EXCEPT !.act[a] = FALSE, !.nodes[a] = [shape |-> <<>>, data |-> <<>>], !.nodes[p] = ModeProd(x.nodes[p], x.nodes[a], PosIn(x.ch[p], a))]
(* ------------------------ the other formats ----------------------------- *)
CanAdd(x, y) == [x EXCEPT !.core = x.core \o y.core, !.space = [j \in 1..Len(x.space) |-> Cat(x.space[j], y.space[j], <<2>>)]]
CanTree(x) ==                                  \* one node per factor below a diagonal core
    LET d == Len(x.space) IN
    [fmt |-> "tree", parent |-> [a \in 1..(d + 1) |-> IF a = 1 THEN 0 ELSE 1], ch |-> [a \in 1..(d + 1) |-> IF a = 1 THEN [j \in 1..d |-> j + 1] ELSE <<>>],
     dims |-> [j \in 1..d |-> j + 1], act |-> [a \in 1..(d + 1) |-> TRUE],
     nodes |-> TLCEval([a \in 1..(d + 1) |-> IF a = 1 THEN DiagTensor(x.core, d) ELSE x.space[a - 1]])]
DiaCan(x) == [fmt |-> "canonical", core |-> x.data, space |-> [j \in 1..x.order |-> Eye(Len(x.data))]]
DiaSpa(x) == [fmt |-> "sparse", shape |-> [j \in 1..x.order |-> Len(x.data)], indices |-> [n \in 1..Len(x.data) |-> [j \in 1..x.order |-> n]], vals |-> x.data]
FullSpa(x) == LET P == SelectSeq(Iota(Len(x.data)), LAMBDA p: x.data[p] # 0) IN
    [fmt |-> "sparse", shape |-> x.shape, indices |-> [n \in 1..Len(P) |-> UnIdx(x.shape, P[n])], vals |-> [n \in 1..Len(P) |-> x.data[P[n]]]]
ValAt(x, ix) == IF ix \in RangeOf(x.indices) THEN x.vals[PosIn(x.indices, ix)] ELSE 0
SpaAdd(x, y) ==
    LET I == x.indices \o SelectSeq(y.indices, LAMBDA ix: ix \notin RangeOf(x.indices))
    IN [x EXCEPT !.indices = I, !.vals = [n \in 1..Len(I) |-> ValAt(x, I[n]) + ValAt(y, I[n])]]
SpaHad(x, y) ==
    LET I == SelectSeq(x.indices, LAMBDA ix: ix \in RangeOf(y.indices))
    IN [x EXCEPT !.indices = I, !.vals = [n \in 1..Len(I) |-> ValAt(x, I[n]) * ValAt(y, I[n])]]
ToFull(x) == [fmt |-> "full", shape |-> Denote(x).shape, data |-> Denote(x).data]

(* ------------------------------ steps ----------------------------------- *)
Go(x, B) == vO' = TLCEval(x) /\ vA' = TLCEval(B) /\ vK' = vK + 1 /\ UNCHANGED seed
Like(s) ==                                     \* another object of the same structure
    CASE vO.fmt = "tree" -> OnNodes(vO, LAMBDA a: Rnd(s, a + 50, vO.nodes[a].shape))
      [] vO.fmt = "canonical" -> [vO EXCEPT !.core = [q \in 1..Len(vO.core) |-> Mix(s, 60, q)], !.space = [j \in 1..Len(vO.space) |-> Rnd(s, j + 60, vO.space[j].shape)]]
      [] vO.fmt = "diagonal" -> [vO EXCEPT !.data = [q \in 1..Len(vO.data) |-> Mix(s, 70, q)]]
      [] vO.fmt = "sparse" -> SpaObj(s + 3, vO.shape)
      [] OTHER -> [vO EXCEPT !.data = [q \in 1..Len(vO.data) |-> Mix(s, 80, q)]]
Leaves == {a \in RangeOf(vO.dims) : TRUE}
Algebra ==
    \/ /\ vO.fmt = "tree"
       /\ \/ \E c \in {-1, 0, 2} : Go(TreeScale(vO, c), Scale(c, vA))
          \/ LET y == Like(seed + vK) IN Go(TreeAdd(vO, y), Add(vA, Denote(y)))
          \/ LET y == Like(seed + vK) IN Go(TreeHad(vO, y), Had(vA, Denote(y)))
          \/ \E j \in 1..Len(vO.dims) : LET M == Rnd(seed + vK, 90 + j, <<2, vA.shape[j]>>) IN Go(TreeMode(vO, M, j), ModeProd(vA, M, j))
    \/ /\ vO.fmt = "canonical"
       /\ LET y == Like(seed + vK) IN
          \/ Go(CanAdd(vO, y), Add(vA, Denote(y)))
          \/ \E j \in 1..Len(vO.space) : LET M == Rnd(seed + vK, 90 + j, <<2, vA.shape[j]>>) IN Go([vO EXCEPT !.space[j] = MatMul(M, @)], ModeProd(vA, M, j))
    \/ /\ vO.fmt = "diagonal"
       /\ LET y == Like(seed + vK) IN
          \/ Go([vO EXCEPT !.data = [q \in 1..Len(@) |-> @[q] + y.data[q]]], Add(vA, Denote(y)))
          \/ Go([vO EXCEPT !.data = [q \in 1..Len(@) |-> @[q] * y.data[q]]], Had(vA, Denote(y)))
    \/ /\ vO.fmt = "sparse"
       /\ LET y == Like(seed + vK) IN Go(SpaAdd(vO, y), Add(vA, Denote(y))) \/ Go(SpaHad(vO, y), Had(vA, Denote(y)))
Convert ==
    \/ vO.fmt # "full" /\ Go(ToFull(vO), vA)
    \/ vO.fmt = "full" /\ Go(FullSpa(vO), vA)
    \/ vO.fmt = "diagonal" /\ (Go(DiaCan(vO), vA) \/ Go(DiaSpa(vO), vA))
    \/ vO.fmt = "canonical" /\ Go(CanTree(vO), vA)
    \/ /\ vO.fmt = "tree"
       /\ \/ \E a \in 2..Len(vO.parent) : vO.act[a] /\ Go(Gauge(vO, a), vA)
          \/ \E a \in RangeOf(vO.dims) : ~vO.act[a] /\ Go(Wake(vO, a), vA)
          \/ \E a \in RangeOf(vO.dims) : vO.act[a] /\ Go(Sleep(vO, a), vA)
Pick(n, s) == <<1 + (s % n)>> \o (IF s % 3 = 0 THEN <<n>> ELSE <<>>)
Evaluate ==
    \/ vO.fmt = "tree" /\ \E j \in 1..Len(vO.dims) : LET sel == Pick(vA.shape[j], seed + j + vK) IN
           Go(TreeSub(vO, j, sel), SubT(vA, [q \in 1..Order(vA) |-> IF q = j THEN sel ELSE Iota(vA.shape[q])]))
    \/ vO.fmt = "canonical" /\ \E j \in 1..Len(vO.space) : LET sel == Pick(vA.shape[j], seed + j + vK) IN
           Go([vO EXCEPT !.space[j] = SubT(@, <<sel, Iota(Len(vO.core))>>)], SubT(vA, [q \in 1..Order(vA) |-> IF q = j THEN sel ELSE Iota(vA.shape[q])]))
Next == vK < DEPTH /\ (("algebra" \in OPS /\ Algebra) \/ ("convert" \in OPS /\ Convert) \/ ("eval" \in OPS /\ Evaluate))
Refines == WF(vO) /\ LET D == Denote(vO) IN D.shape = vA.shape /\ D.data = vA.data
(* inner products: through the representations (gramians of the factors) and by entries *)
CanDot(x, y) == SumTo(Len(x.core), LAMBDA p: SumTo(Len(y.core), LAMBDA q:
    x.core[p] * y.core[q] * ProdTo(Len(x.space), LAMBDA j: SumTo(x.space[j].shape[1], LAMBDA i: At(x.space[j], <<i, p>>) * At(y.space[j], <<i, q>>)))))
RECURSIVE TreeGram(_, _, _)
(* Gram matrix (rank of x by rank of y) of the functions of node a *)
TreeGram(x, y, a) ==
    LET X == x.nodes[a]
        Y == y.nodes[a]
        n == Len(x.ch[a])
        GY == FoldLeft(LAMBDA acc, j: IF x.act[x.ch[a][j]] THEN ModeProd(acc, TreeGram(x, y, x.ch[a][j]), j) ELSE acc, Y, Iota(n))
        m == IF n = 0 THEN 1 ELSE n
    IN Contract(X, GY, Iota(m), Iota(m))
Inner == vK = 0 =>
    CASE vO.fmt = "canonical" -> LET y == Like(seed) IN CanDot(vO, y) = Dot(vA, Denote(y))
      [] vO.fmt = "tree" -> LET y == Like(seed)
                               G == TreeGram(vO, y, 1)
                           IN Dot(vA, Denote(y)) = (IF G.shape = <<>> THEN G.data[1] ELSE SumTo(G.shape[1], LAMBDA i: At(G, <<i, i>>)))
      [] vO.fmt = "sparse" -> LET y == Like(seed) IN Dot(vA, Denote(y)) = SumTo(Len(vO.vals), LAMBDA n: vO.vals[n] * ValAt(y, vO.indices[n]))
      [] OTHER -> TRUE
=============================================================================
