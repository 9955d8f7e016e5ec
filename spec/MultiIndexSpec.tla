--------------------------- MODULE MultiIndexSpec ---------------------------
(* Sets of multi-indices and their definitions over the componentwise order *)
(* (properties C12, C13).  A multi-index is a sequence of integers; a        *)
(* MultiIndices object is a sequence of multi-indices, its denotation the    *)
(* set of its elements.  The state machine at the end has as state a pool of *)
(* index sets held by a program; each step derives a new set from the pool.  *)
EXTENDS VBase
LOCAL INSTANCE Bitwise

Leq(a, b) == \A k \in 1..Len(a) : a[k] <= b[k]
AddV(a, b) == [k \in 1..Len(a) |-> a[k] + b[k]]
Unit(d, k) == [m \in 1..d |-> IF m = k THEN 1 ELSE 0]
Up(i, k) == [i EXCEPT ![k] = @ + 1]
Down(i, k) == [i EXCEPT ![k] = @ - 1]
Proj(i, dims) == [m \in 1..Len(dims) |-> i[dims[m]]]
Dims(i) == 1..Len(i)

Margin(I) == {Up(i, k) : <<i, k>> \in {p \in I \X UNION {Dims(j) : j \in I} : TRUE}} \ I
Reduced(I) == {j \in Margin(I) : \A k \in Dims(j) : j[k] > 0 => Down(j, k) \in I}
Maximal(I) == {i \in I : \A j \in I : Leq(i, j) => j = i}
(* all the indices between (m, ..., m) and i *)
RECURSIVE Box(_, _)
Box(i, m) == IF Len(i) = 0 THEN {<<>>}
             ELSE {Append(p, x) : <<p, x>> \in Box(SubSeq(i, 1, Len(i) - 1), m) \X (m..i[Len(i)])}
DownClosed(I, m) == \A i \in I : Box(i, m) \subseteq I
DownClosure(I, m) == UNION {Box(i, m) : i \in I}
Envelope(s, u) ==                                  \* s: sequence of indices
    [n \in 1..Len(s) |-> Max({AbsI(u[q]) : q \in {q \in 1..Len(s) : Leq(s[n], s[q])}})]

(* order used by sort: columns[1] first, then columns[2], ... *)
RECURSIVE LexLe(_, _, _)
LexLe(a, b, cols) == IF cols = <<>> THEN TRUE
                     ELSE IF a[cols[1]] # b[cols[1]] THEN a[cols[1]] < b[cols[1]]
                     ELSE LexLe(a, b, Tail(cols))

(* p-norms raised to the power p (p = 0 stands for the infinity norm)        *)
NormP(i, p) == IF p = 0 THEN MaxSeq([k \in Dims(i) |-> AbsI(i[k])])
               ELSE SumSeq([k \in Dims(i) |-> PowI(AbsI(i[k]), p)])
WNormP(i, p, w) == NormP([k \in Dims(i) |-> w[k] * i[k]], p)
BoundP(m, p) == IF p = 0 THEN m ELSE PowI(m, p)

(* first occurrences, in order *)
Uniq(s) == FoldLeft(LAMBDA acc, x: IF \E k \in 1..Len(acc) : acc[k] = x THEN acc ELSE Append(acc, x), <<>>, s)
(* product set: first factor fastest *)
ProductSeq(A, B) == [p \in 1..(Len(A) * Len(B)) |-> A[((p - 1) % Len(A)) + 1] \o B[((p - 1) \div Len(A)) + 1]]

(* -------------------------------------------------------- state machine *)
(* op = [k |-> kind, a |-> pool position, b |-> pool position, v |-> <<..>>] *)
Step(pool, op) ==
    LET A == pool[op.a]
        B == pool[op.b]
        S == RangeOf(A)
        T == RangeOf(B)
    IN CASE op.k = "union"    -> S \cup T
         [] op.k = "diff"     -> S \ T
         [] op.k = "inter"    -> S \cap T
         [] op.k = "margin"   -> Margin(S)
         [] op.k = "reduced"  -> Reduced(S)
         [] op.k = "addmargin" -> S \cup Margin(S)
         [] op.k = "addreduced" -> S \cup Reduced(S)
         [] op.k = "maximal"  -> Maximal(S)
         [] op.k = "dropmax"  -> S \ Maximal(S)
         [] op.k = "shift"    -> {AddV(i, op.v) : i \in S}
         [] op.k = "unshift"  -> {[k \in Dims(i) |-> i[k] - op.v[k]] : i \in S}
         [] op.k = "keepdims" -> {Proj(i, op.v) : i \in S}
         [] op.k = "remdims"  -> {Proj(i, Sorted(Dims(i) \ RangeOf(op.v))) : i \in S}
         [] op.k = "product"  -> {i \o j : <<i, j>> \in S \X T}
         [] op.k = "sort"     -> S
=============================================================================
