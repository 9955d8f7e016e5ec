------------------------------- MODULE PcaSpec -------------------------------
(* Approximation of a tensor known through an oracle for its entries, node    *)
(* by node from the leaves to the root.  A node is visited when its active    *)
(* children have been; its rows are the product of the grids of its children  *)
(* (all the indices of a mode for a leaf); a number of sample columns is      *)
(* asked to the oracle, a rank is chosen within the bounds, and as many rows  *)
(* are kept as the grid of the node.  The root interpolates on the product    *)
(* of the grids of its children.                                              *)
(* opt: T tree, sz sizes, ina inactive leaves, mode "tol"/"rank",             *)
(* top: prescribed or maximal ranks, fac: sampling factor, adapt              *)
EXTENDS TreeSpec, Json
CONSTANTS SMAX, RMAX, FACS
VARIABLES o, st
vars == <<o, st>>
R == INSTANCE RankSpec WITH RMAX <- 1, SMAX <- 1, vT <- <<>>, vsz <- <<>>, vina <- {}, vr <- <<>>, phase <- 0

Work(opt) == Nodes(opt.T) \ (opt.ina \cup {RootOf(opt.T)})
(* number of rows of a node, given the sizes g of the grids                   *)
RowsOf(opt, g, a) == IF Leaf(opt.T, a) THEN opt.sz[PosIn(opt.T.dims, a)]
                     ELSE ProdSeq([k \in 1..Len(Ch(opt.T, a)) |-> g[Ch(opt.T, a)[k]]])
Bound(opt, a) == opt.top[a]
(* numbers of samples allowed                                                 *)
SamplesOk(opt, rows, a, s) ==
    IF opt.mode = "rank" THEN s = opt.fac * Bound(opt, a)
    ELSE IF opt.adapt THEN s \in 1..(opt.fac * rows)
    ELSE s = opt.fac * rows
RankOk(opt, rows, s, a, r) == r \in 1..MinI(MinI(rows, s), Bound(opt, a))
Start(opt) == [g |-> [a \in Nodes(opt.T) |-> IF a \in opt.ina THEN opt.sz[PosIn(opt.T.dims, a)] ELSE 0], done |-> opt.ina, n |-> 0, ev |-> [a \in Nodes(opt.T) |-> 0]]
CanVisit(opt, s, a) == a \notin s.done /\ RangeOf(Ch(opt.T, a)) \subseteq s.done
Visit(opt, s, a, cols, r) ==
    [s EXCEPT !.g[a] = r, !.done = @ \cup {a}, !.n = @ + RowsOf(opt, s.g, a) * cols, !.ev[a] = RowsOf(opt, s.g, a) * cols]
Close(opt, s) == LET a == RootOf(opt.T) IN
    [s EXCEPT !.done = @ \cup {a}, !.n = @ + RowsOf(opt, s.g, a), !.ev[a] = RowsOf(opt, s.g, a), !.g[a] = 1]

(* ------------------------------------------------------------------- model *)
Trees == {TrivialTree(2), TrivialTree(3), AddCh(AddCh(TrivialTree(2), 2), 2), AddCh(AddCh(TrivialTree(2), 3), 3), AddCh(AddCh(TrivialTree(3), 3), 3),
          AddCh(AddCh(AddCh(AddCh(TrivialTree(2), 2), 2), 3), 3), AddCh(AddCh(AddCh(AddCh(TrivialTree(2), 2), 2), 5), 5), AddCh(TrivialTree(2), 2)}
Leaves(T) == RangeOf(T.dims)
Small == {t \in Trees : NN(t) <= 5}
OK(opt) == \A a \in Nodes(opt.T) : IF a \in opt.ina THEN opt.top[a] = 0 ELSE opt.top[a] >= 1 /\ (opt.T.parent[a] # 0 \/ opt.top[a] = 1)
Init == /\ o \in UNION {{x \in [T : {t}, sz : [1..Len(t.dims) -> 2..SMAX], ina : SUBSET Leaves(t), mode : {"tol", "rank"}, top : [Nodes(t) -> 0..RMAX], fac : FACS, adapt : BOOLEAN] : OK(x)} : t \in Small}
        /\ st = Start(o)
Next == /\ o' = o
        /\ \/ \E a \in Work(o) : CanVisit(o, st, a) /\ \E s \in 1..(SMAX * SMAX * 2) : \E r \in 1..RMAX :
                /\ SamplesOk(o, RowsOf(o, st.g, a), a, s) /\ RankOk(o, RowsOf(o, st.g, a), s, a, r)
                /\ st' = Visit(o, st, a, s, r)
           \/ CanVisit(o, st, RootOf(o.T)) /\ st' = Close(o, st)
Done == RootOf(o.T) \in st.done
NeverOver == \A a \in st.done \ {RootOf(o.T)} : a \in o.ina \/ (st.g[a] <= Bound(o, a) /\ st.g[a] <= RowsOf(o, st.g, a))
Counted == st.n = SumSeq(st.ev)
(* never more evaluations than announced by the options                       *)
Rows0(a) == IF Leaf(o.T, a) THEN o.sz[PosIn(o.T.dims, a)] ELSE ProdSeq([k \in 1..Len(Ch(o.T, a)) |-> IF Ch(o.T, a)[k] \in o.ina THEN o.sz[PosIn(o.T.dims, Ch(o.T, a)[k])] ELSE o.top[Ch(o.T, a)[k]]])
Budget == \A a \in st.done \ o.ina : st.ev[a] <= Rows0(a) * (IF a = RootOf(o.T) THEN 1 ELSE o.fac * (IF o.mode = "rank" THEN o.top[a] ELSE Rows0(a)))
(* the result is an admissible format of the shape: below the ranks allow it  *)
Fits == Done => \A a \in Nodes(o.T) \ o.ina : a = RootOf(o.T) \/ st.g[a] <= ProdSeq([k \in 1..Len(DimsSeq(o.T, a)) |-> o.sz[DimsSeq(o.T, a)[k]]])
Progress == Done \/ \E a \in Work(o) \cup {RootOf(o.T)} : CanVisit(o, st, a)

(* --------------------------------------------------------- generated cases *)
Rand(S) == RandomElement(IF Len(o.sz) > 1000 THEN {} ELSE S)
SimInit == o = [sz |-> <<>>] /\ st = <<>>
SimNext == /\ o.sz = <<>>
           /\ o' = TLCEval(LET t == Rand(Trees) IN
                     [T |-> t, sz |-> [k \in 1..Len(t.dims) |-> Rand(2..SMAX)], ina |-> Rand(SUBSET Leaves(t)), mode |-> Rand({"tol", "rank"}),
                      top |-> [a \in Nodes(t) |-> Rand(1..RMAX)], fac |-> Rand(FACS), adapt |-> Rand(BOOLEAN)])
           /\ st' = st
Emit == o.sz = <<>> \/ PrintT(ToJson(o))
=============================================================================
