------------------------------ MODULE C10Trace ------------------------------
EXTENDS FormatSpec, TraceBase
M == INSTANCE RestructSpec WITH L <- 1, NMAX <- 1, T <- 0, ina <- 0, rr <- 0, init <- 0, ops <- 0
Tr(t) == [parent |-> t.parent, dims |-> t.dims]
(* x: state before, y: state after; arr: array represented, times 1000       *)
Same(r) == IF r.x.arr.shape = r.y.arr.shape /\ \A j \in 1..Len(r.x.arr.data) : AbsI(r.x.arr.data[j] - r.y.arr.data[j]) <= 5 THEN {} ELSE {"array"}
E2(r) == SumTo(Len(r.x.arr.data), LAMBDA j: LET d == MinI(40000, AbsI(r.x.arr.data[j] - r.y.arr.data[j])) IN (d * d) \div 1000)       \* times 1000
N2(r) == SumTo(Len(r.x.arr.data), LAMBDA j: LET d == r.x.arr.data[j] \div 1000 IN d * d)
Within(r) == IF r.p = 0 THEN Same(r)
             ELSE IF r.x.arr.shape # r.y.arr.shape THEN {"array"}
             ELSE IF (E2(r) \div 10) <= r.p * r.p * r.n2 + 2 THEN {} ELSE {"tolerance"}
Inactive(o) == {a \in 1..Len(o.act) : ~o.act[a]}
(* active nodes and dimensions announced                                     *)
Activity(o) ==
    LET S == {a \in 1..Len(o.act) : o.act[a]}
        D == {k \in 1..Len(o.tree.dims) : o.tree.dims[k] \in S}
        List(s, X) == RangeOf(s) = X /\ Len(s) = Cardinality(X)
    IN IF /\ List(o.said.nodes, S) /\ List(o.said.non, Inactive(o)) /\ List(o.said.dims, D) /\ List(o.said.nondims, (1..Len(o.tree.dims)) \ D)
          /\ o.said.isnode = o.act /\ o.said.is = [k \in 1..Len(o.tree.dims) |-> k \in D] /\ o.said.isall = o.said.is THEN {} ELSE {"activity"}
(* arrays and ranks announced by the object fit together                     *)
Consistent(o) ==
    (IF M!WFTree(Tr(o.tree)) /\ \A a \in 1..Len(o.tree.parent) : o.tree.ch[a] = M!Ch(Tr(o.tree), a) THEN
       (IF WF([fmt |-> "tree", parent |-> o.tree.parent, ch |-> o.tree.ch, dims |-> o.tree.dims, act |-> o.act,
               nodes |-> [a \in 1..Len(o.shapes) |-> [shape |-> o.shapes[a]]]]) THEN {} ELSE {"structure"})
       \cup (IF \A a \in 1..Len(o.shapes) :
                  LET sh == o.shapes[a]
                      rk == IF ~o.act[a] THEN 0
                            ELSE IF a = M!RootOf(Tr(o.tree)) /\ Len(sh) = MaxI(1, Len(o.tree.ch[a])) THEN 1 ELSE sh[Len(sh)]
                  IN ~o.act[a] \/ o.ranks[a] = rk THEN {} ELSE {"ranks"})
     ELSE {"tree"})
    \cup (IF o.shape = SubSeq(o.arr.shape, 1, Len(o.shape)) /\ o.order = Len(o.shape) /\ Len(o.shape) = Len(o.tree.dims) THEN {} ELSE {"shape"})
Want(r) ==
    LET U == Tr(r.x.tree)
        S == Inactive(r.x)
    IN CASE r.op = "permnodes" -> [t |-> M!Swap(U, r.a, r.b), ina |-> S]
         [] r.op = "permbad" -> [t |-> U, ina |-> S]
         [] r.op = "permleaves" -> [t |-> M!MoveLeaves(U, r.s), ina |-> S]
         [] r.op = "changeroot" -> IF r.a = M!RootOf(U) THEN [t |-> U, ina |-> S]
                                   ELSE [t |-> M!Rooted(U, r.rr, r.a), ina |-> M!RootedIna(U, S, r.rr, r.a)]
         [] r.op = "unique" -> [t |-> M!Merge(U), ina |-> M!MergeIna(U, S)]
         [] r.op = "inactivate" -> [t |-> U, ina |-> S \cup RangeOf(r.s)]
         [] r.op = "activate" -> [t |-> U, ina |-> S \ RangeOf(r.s)]
Search(r) ==
    LET U == Tr(r.x.tree)
        V == Tr(r.y.tree)
    IN (IF r.y.storage <= r.x.storage THEN {} ELSE {"more_expensive"})
       \cup (IF V.dims = U.dims /\ Len(V.parent) = Len(U.parent) /\ Inactive(r.x) = Inactive(r.y) THEN {} ELSE {"tree"})
       \cup (IF r.op = "optleaves" /\ \E a \in 1..Len(U.parent) : ~M!Leaf(U, a) /\ V.parent[a] # U.parent[a] THEN {"tree"} ELSE {})
       \cup (IF M!WFTree(V) /\ \A a \in 1..Len(U.parent) : Cardinality(RangeOf(M!Ch(U, a))) = Cardinality(RangeOf(M!Ch(V, a))) THEN {} ELSE {"tree"})
(* Tree adaptation inside the learner: the tree found is taken if and only if it is cheaper; the learner follows the tensor; without a usable tolerance nothing happens *)
Searching == {"tolerance", "cv", "test", "both", "test_zero"}
BadAdapt(r) ==
    (IF r.follows /\ r.bases THEN {} ELSE {"learner"})
    \cup (IF r.flag = (IF r.mode = "off" THEN 2 ELSE IF r.mode \in Searching /\ r.ref < r.x.storage THEN 1 ELSE 0) THEN {} ELSE {"flag"})
    \cup (IF r.enabled = (r.mode \notin {"off", "absolute"}) THEN {} ELSE {"enabled"})
    \cup (IF r.mode \in Searching THEN Consistent(r.y) \cup Within(r) ELSE {})
    \cup (IF r.flag = 1 THEN IF r.y.storage < r.x.storage /\ r.y.storage = r.ref THEN {} ELSE {"more_expensive"}
          ELSE IF r.y = r.x THEN {} ELSE {"changed"})
Bad1(r) ==
    IF r.op = "adapt" THEN BadAdapt(r) ELSE
    Consistent(r.y) \cup Activity(r.y) \cup Within(r)
    \cup (IF r.op \in {"opttree", "optleaves"} THEN Search(r)
          ELSE LET w == Want(r) IN
               (IF Tr(r.y.tree) = w.t THEN {} ELSE {"tree"}) \cup (IF Inactive(r.y) = w.ina THEN {} ELSE {"active"}))
    \cup (IF r.op = "permbad" /\ ~r.raised THEN {"not_refused"} ELSE {})
    \cup (IF r.xafter = r.x THEN {} ELSE {"operand_changed"})
Bad(r) == IF r.err # "" THEN {"exception"} ELSE Bad1(r)
Chk == Report(vLine, Bad(Recs[vLine]))
=============================================================================
