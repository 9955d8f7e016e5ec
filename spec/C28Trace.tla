------------------------------ MODULE C28Trace ------------------------------
EXTENDS FormatSpec, TraceBase
M == INSTANCE RankSpec WITH RMAX <- 1, SMAX <- 1, vT <- 0, vsz <- 0, vina <- 0, vr <- 0, phase <- 0
Tr(t) == [parent |-> t.parent, dims |-> t.dims]
Ina(x) == {a \in 1..Len(x.act) : ~x.act[a]}
LeafSet(x) == {a \in 1..Len(x.parent) : x.ch[a] = <<>>}
Cnt(s) == SumTo(Len(s), LAMBDA k: IF s[k] # 0 THEN 1 ELSE 0)
NodeSize(x, a) == IF x.act[a] THEN Len(x.nodes[a].data) ELSE 0
NodeCnt(x, a) == IF x.act[a] THEN Cnt(x.nodes[a].data) ELSE 0
SumN(x, f(_)) == SumTo(Len(x.parent), f)
Storage(x) == CASE x.fmt = "tree" -> SumN(x, LAMBDA a: NodeSize(x, a))
                [] x.fmt = "full" -> Len(x.data)
                [] x.fmt = "canonical" -> Len(x.core) + SumTo(Len(x.space), LAMBDA k: Len(x.space[k].data))
                [] x.fmt = "diagonal" -> Len(x.data)
                [] x.fmt = "sparse" -> Len(x.vals)
Sparse(x) == CASE x.fmt = "tree" -> SumN(x, LAMBDA a: NodeCnt(x, a))
               [] x.fmt = "full" -> Cnt(x.data)
               [] x.fmt = "canonical" -> Cnt(x.core) + SumTo(Len(x.space), LAMBDA k: Cnt(x.space[k].data))
               [] x.fmt = "diagonal" -> Cnt(x.data)
               [] x.fmt = "sparse" -> Len(x.vals)
SparseLeaves(x) == SumN(x, LAMBDA a: IF a \in LeafSet(x) THEN NodeCnt(x, a) ELSE NodeSize(x, a))
RepRank(x) == [a \in 1..Len(x.parent) |->
                 IF ~x.act[a] THEN 0
                 ELSE LET sh == x.nodes[a].shape IN
                      IF x.parent[a] = 0 /\ Len(sh) = MaxI(1, Len(x.ch[a])) THEN 1 ELSE sh[Len(sh)]]
Of(x, fun) == CASE fun = "storage" -> Storage(x) [] fun = "sparse_storage" -> Sparse(x) [] fun = "sparse_leaves_storage" -> SparseLeaves(x)
Gauge(x, ty) == LET r == RepRank(x) IN
    CASE ty = "standard" -> 0
      [] ty = "grassman" -> SumTo(Len(r), LAMBDA a: r[a] * r[a])
      [] ty = "stiefel" -> SumTo(Len(r), LAMBDA a: (r[a] * (r[a] + 1)) \div 2)
(* size of every dimension, from the data                                    *)
Sizes(x) == [k \in 1..Len(x.dims) |->
               LET a == x.dims[k] IN
               IF x.act[a] THEN x.nodes[a].shape[1]
               ELSE LET p == x.parent[a] IN x.nodes[p].shape[PosIn(x.ch[p], a)]]
BadMeasures(r) ==
    (IF r.storage = Storage(r.x) THEN {} ELSE {"storage"})
    \cup (IF r.sparse = Sparse(r.x) THEN {} ELSE {"sparse_storage"})
    \cup (IF r.x.fmt = "tree" THEN
             (IF r.leaves = SparseLeaves(r.x) THEN {} ELSE {"sparse_leaves_storage"})
             \cup (IF r.ranks = RepRank(r.x) THEN {} ELSE {"representation_rank"})
             \cup (IF r.shape = Sizes(r.x) THEN {} ELSE {"shape"})
             \cup (IF \A j \in 1..Len(r.comp) : r.comp[j].val = Of(r.x, r.comp[j].fun) - Gauge(r.x, r.comp[j].ty) THEN {} ELSE {"complexity"})
          ELSE IF r.x.fmt = "canonical" THEN (IF r.ranks = <<Len(r.x.core)>> THEN {} ELSE {"representation_rank"})
          ELSE {})
BadRank(r) ==
    LET A == Denote(r.x)
        U == Tr(r.x)
        D == Len(U.dims)
        extra == Order(A) > D
        want == [a \in 1..Len(U.parent) |->
                   IF a \in Ina(r.x) THEN 0
                   ELSE LET rows == Sorted(M!DimsOf(U, a))
                            cols == Sorted((1..Order(A)) \ M!DimsOf(U, a))
                        IN M!RankOf(Matricize(A, rows, cols))]
    IN IF r.val = want THEN {} ELSE {"rank"}
BadAdm(r) ==
    LET U == Tr(r.x)
        S == Ina(r.x)
        want == M!Admissible(U, Sizes(r.x), S, r.ranks)
    IN (IF r.val = want THEN {} ELSE {"verdict"})
       \cup (IF (\E a \in S : r.ranks[a] # 0) \/ \A a \in 1..Len(U.parent) : a \in S \/ r.details[a] = M!NodeConds(U, Sizes(r.x), S, r.ranks, a) THEN {} ELSE {"details"})
Below(U, x, sz, q) == [a \in 1..Len(q) |-> IF a \in Ina(x) THEN 0 ELSE IF M!Leaf(U, a) /\ q[a] > sz[PosIn(U.dims, a)] THEN sz[PosIn(U.dims, a)] ELSE q[a]]
BadMake(r) ==
    LET U == Tr(r.x)
        S == Ina(r.x)
        sz == Sizes(r.x)
        cur == RepRank(r.x)
        ask == Below(U, r.x, sz, r.ask)
        d == [a \in 1..Len(cur) |-> ask[a] - cur[a]]
        got == [a \in 1..Len(cur) |-> r.val[a] - cur[a]]
        dropped == {a \in 1..Len(d) : got[a] # d[a]}
    IN (IF M!Admissible(U, sz, S, r.val) THEN {} ELSE {"not_admissible"})
       \cup (IF \A a \in 1..Len(cur) : r.val[a] >= cur[a] THEN {} ELSE {"lower_than_current"})
       \cup (IF \A a \in 1..Len(cur) : got[a] \in {0, d[a]} THEN {} ELSE {"other_raise"})
       \cup (IF RangeOf(r.nodes) = M!Raised(got) /\ NoDup(r.nodes) THEN {} ELSE {"announced"})
       \* no correction drops fewer raises
       \cup (IF \A R \in SUBSET M!Raised(d) : Cardinality(R) < Cardinality(dropped) => ~M!Admissible(U, sz, S, M!Plus(cur, M!Kept(d, R))) THEN {} ELSE {"not_minimal"})
       \cup (IF r.askafter = r.ask THEN {} ELSE {"argument_changed"})
(* Nodes that cannot be enriched: the root, inactive leaves, leaves whose    *)
(* rank is the size of the dimension, and internal nodes whose rank is the   *)
(* product of those of children that cannot be enriched.                     *)
RECURSIVE Blocked(_, _, _, _, _)
Blocked(U, sz, ina, cur, a) ==
    IF U.parent[a] = 0 \/ a \in ina THEN TRUE
    ELSE IF M!Leaf(U, a) THEN cur[a] = sz[PosIn(U.dims, a)]
    ELSE cur[a] = M!ProdOver(U, sz, ina, cur, RangeOf(M!Ch(U, a))) /\ \A c \in RangeOf(M!Ch(U, a)) : Blocked(U, sz, ina, cur, c)
(* all the others with a singular value above theta times the largest are    *)
(* enriched if that is admissible; otherwise further ones, largest first     *)
BadTheta(r) ==
    LET U == Tr(r.x)
        cur == RepRank(r.x)
        sz == Sizes(r.x)
        S == Ina(r.x)
        cand == {a \in 1..Len(cur) : ~Blocked(U, sz, S, cur, a)}
        top == Max({r.smin[a] : a \in cand})
        want == {a \in cand : 100 * r.smin[a] >= r.theta * top}
        up(Q) == M!Admissible(U, sz, S, [a \in 1..Len(cur) |-> IF a \in Q THEN cur[a] + 1 ELSE cur[a]])
        got == RangeOf(r.nodes)
    IN IF ~r.ok THEN {}
       ELSE IF cand = {} THEN (IF got = {} THEN {} ELSE {"enriched"})
       ELSE IF up(want) THEN (IF got = want THEN {} ELSE {"threshold"})
       ELSE IF got = {} \/ (want \subseteq got /\ got \subseteq cand /\ \A a \in got \ want : \A b \in cand \ got : 100 * r.smin[a] >= 98 * r.smin[b]) THEN {} ELSE {"order"}
BadNew(r) ==
    LET U == Tr(r.x)
        cur == RepRank(r.x)
    IN BadTheta(r) \cup (IF M!Admissible(U, Sizes(r.x), Ina(r.x), r.val) THEN {} ELSE {"not_admissible"})
       \cup (IF \A a \in 1..Len(cur) : r.val[a] - cur[a] = (IF a \in RangeOf(r.nodes) THEN 1 ELSE 0) THEN {} ELSE {"announced"})
       \cup (IF NoDup(r.nodes) /\ \A a \in RangeOf(r.nodes) : a \notin Ina(r.x) /\ U.parent[a] # 0 THEN {} ELSE {"nodes"})
       \cup (IF r.xafter = r.x THEN {} ELSE {"operand_changed"})
BadEnrich(r) ==
    (IF WF(r.y) /\ Tr(r.y) = Tr(r.x) /\ r.y.act = r.x.act THEN
        (IF RepRank(r.y) = r.ask /\ r.ranks = r.ask THEN {} ELSE {"ranks"}) \cup (IF Sizes(r.y) = Sizes(r.x) THEN {} ELSE {"shape"})
     ELSE {"structure"})
    \cup (IF r.xafter = r.x THEN {} ELSE {"operand_changed"})
(* tensors made from sizes, ranks and active nodes *)
Filled(how, p) == LET n == Len(p.data) IN
    CASE how = "create" -> \A j \in 1..n : p.data[j] = 1000 * (j - 1)
      [] how = "ones" -> \A j \in 1..n : p.data[j] = 1000
      [] how = "zeros" -> \A j \in 1..n : p.data[j] = 0
      [] how = "rand" -> \A j \in 1..n : p.data[j] \in 0..1000
      [] how = "randn" -> \A j \in 1..n : AbsI(p.data[j]) <= 8000
Varied(how, parts) ==
    LET all == UNION {RangeOf(parts[k].data) : k \in 1..Len(parts)}
        n == SumTo(Len(parts), LAMBDA k: Len(parts[k].data))
    IN CASE how = "rand" -> n < 5 \/ Cardinality(all) >= n \div 3 \/ Cardinality(all) > 20
         [] how = "randn" -> (n < 5 \/ Cardinality(all) >= n \div 3 \/ Cardinality(all) > 20) /\ (n < 40 \/ ((\E v \in all : v < 0) /\ \E v \in all : v > 1000))
         [] OTHER -> TRUE
FilledAll(r) == IF (\A k \in 1..Len(r.parts) : Len(r.parts[k].data) = Size(r.parts[k].shape) /\ Filled(r.how, r.parts[k])) /\ Varied(r.how, r.parts) THEN {} ELSE {"entries"}
Created(r) ==
    LET U == Tr(r.x)
        NN == Len(U.parent)
        root == M!RootOf(U)
        actOk == IF r.ia # <<>> THEN r.act = r.ia
                 ELSE IF r.anyact THEN \A a \in 1..NN : r.act[a] \/ M!Leaf(U, a)
                 ELSE \A a \in 1..NN : r.act[a]
        rkOk == IF r.rk # <<>> THEN r.ranks = [a \in 1..NN |-> IF r.act[a] THEN r.rk[a] ELSE 0]
                ELSE \A a \in 1..NN : r.ranks[a] \in (IF ~r.act[a] THEN {0} ELSE IF a = root THEN {1} ELSE 1..5)
        shOk == IF r.ask # <<>> THEN r.shape = r.ask
                ELSE IF r.asked = "random" THEN \A k \in 1..r.d : r.shape[k] \in 1..10
                ELSE \A k \in 1..r.d : LET a == U.dims[k] IN
                        IF r.rk # <<>> THEN r.shape[k] = r.rk[a] ELSE IF r.act[a] THEN r.shape[k] = r.ranks[a] ELSE r.shape[k] \in 1..5
        sz(a) == IF r.act[a] THEN r.ranks[a] ELSE r.shape[PosIn(U.dims, a)]
        want(a) == IF ~r.act[a] THEN <<>>
                   ELSE (IF M!Leaf(U, a) THEN <<r.shape[PosIn(U.dims, a)]>> ELSE [k \in 1..Len(M!Ch(U, a)) |-> sz(M!Ch(U, a)[k])])
                        \o (IF a = root /\ r.ranks[a] = 1 THEN <<>> ELSE <<r.ranks[a]>>)
    IN (IF r.y = r.x THEN {} ELSE {"tree"}) \cup (IF actOk THEN {} ELSE {"active"}) \cup (IF rkOk THEN {} ELSE {"ranks"})
       \cup (IF Len(r.shape) = r.d /\ r.order = r.d /\ shOk THEN {} ELSE {"shape"})
       \cup (IF actOk /\ rkOk /\ shOk /\ \E a \in 1..NN : r.parts[a].shape # want(a) THEN {"arrays"} ELSE {})
       \cup FilledAll([how |-> r.how, parts |-> SelectSeq(r.parts, LAMBDA q: q.shape # <<>>)])
BadCreate(r) ==
    CASE r.fmt = "full" -> FilledAll(r) \cup (IF Len(r.parts) = 1 /\ r.parts[1].shape = r.ask /\ r.shape = r.ask /\ r.order = r.d THEN {} ELSE {"shape"})
      [] r.fmt = "canonical" -> FilledAll(r) \cup (IF /\ Len(r.parts) = r.d /\ \A k \in 1..r.d : r.parts[k].shape = <<r.ask[k], r.r>>
                                                      /\ r.shape = r.ask /\ r.order = r.d /\ r.core = [k \in 1..r.r |-> 1000] THEN {} ELSE {"shape"})
      [] r.fmt = "diagonal" -> FilledAll(r) \cup (IF Len(r.parts) = 1 /\ r.parts[1].shape = <<r.r>> /\ r.order = r.d /\ r.shape = [k \in 1..r.d |-> r.r] THEN {} ELSE {"shape"})
      [] r.fmt = "tree" -> LET bad == r.ia # <<>> /\ \E a \in 1..Len(r.x.parent) : ~r.ia[a] /\ r.x.ch[a] # <<>> IN
                           IF bad # r.refused THEN {"refusal"} ELSE IF bad THEN {} ELSE Created(r)
BadCoef(r) ==
    LET nz == Cardinality({j \in 1..Len(r.c) : r.c[j] # 0})
    IN (IF r.storage = Len(r.c) THEN {} ELSE {"storage"})
       \cup (IF r.sparse = <<nz, nz>> THEN {} ELSE {"sparse_storage"})
       \cup (IF \A j \in 1..Len(r.comp) : r.comp[j] = Len(r.c) THEN {} ELSE {"complexity"})
Bad1(r) == CASE r.op = "create" -> BadCreate(r) [] r.op = "coefficients" -> BadCoef(r)
      [] r.op = "measures" -> BadMeasures(r)
             [] r.op = "rank" -> BadRank(r)
             [] r.op = "admissible" -> BadAdm(r)
             [] r.op = "make" -> BadMake(r)
             [] r.op = "newrank" -> BadNew(r)
             [] r.op = "enrich" -> BadEnrich(r)
Bad(r) == IF r.err # "" THEN {"exception"} ELSE Bad1(r)
Chk == Report(vLine, Bad(Recs[vLine]))
=============================================================================
