------------------------------- MODULE VBase -------------------------------
(* Basic operators shared by all the specifications: integer sums and        *)
(* products over sequences, flat/multi index arithmetic (Fortran order:      *)
(* first index fastest, as everywhere in tensap), and small matrices.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, Functions

Iota(n) == [k \in 1..n |-> k]                       \* <<1, ..., n>>

SumSeq(s)  == FoldLeft(LAMBDA a, b: a + b, 0, s)
ProdSeq(s) == FoldLeft(LAMBDA a, b: a * b, 1, s)
SumTo(n, f(_))  == FoldLeft(LAMBDA a, k: a + f(k), 0, Iota(n))
ProdTo(n, f(_)) == FoldLeft(LAMBDA a, k: a * f(k), 1, Iota(n))

AbsI(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a < b THEN b ELSE a
MinI(a, b) == IF a < b THEN a ELSE b
RECURSIVE PowI(_, _)
PowI(b, n) == IF n = 0 THEN 1 ELSE b * PowI(b, n - 1)

MaxSeq(s) == FoldLeft(LAMBDA a, b: MaxI(a, b), s[1], s)
MinSeq(s) == FoldLeft(LAMBDA a, b: MinI(a, b), s[1], s)
RangeOf(s) == {s[k] : k \in 1..Len(s)}
NoDup(s) == Cardinality(RangeOf(s)) = Len(s)
Plus1(s) == [k \in 1..Len(s) |-> s[k] + 1]          \* 0-based -> 1-based
Sorted(S) == SetToSortSeq(S, LAMBDA a, b: a < b)    \* a set of integers as increasing sequence
PosIn(s, x) == CHOOSE k \in 1..Len(s) : s[k] = x
Sel(s, q) == [k \in 1..Len(q) |-> s[q[k]]]          \* sub-sequence at (1-based) positions q
IsPerm(p, n) == Len(p) = n /\ RangeOf(p) = 1..n
InvPerm(p) == [k \in 1..Len(p) |-> PosIn(p, k)]
OtherPos(n, q) == Sorted((1..n) \ RangeOf(q))
SetPos(s, k, x) == [s EXCEPT ![k] = x]

(* ------------------------------------------------------------ flat index *)
Size(shape) == ProdSeq(shape)
Stride(shape) == [k \in 1..Len(shape) |-> ProdSeq(SubSeq(shape, 1, k - 1))]
(* 1-based multi-index of 1-based flat position p *)
UnIdx(shape, p) ==
    LET st == Stride(shape) IN [k \in 1..Len(shape) |-> (((p - 1) \div st[k]) % shape[k]) + 1]
Flat(shape, ix) ==
    FoldLeft(LAMBDA acc, k: acc * shape[k] + (ix[k] - 1), 0, Reverse(Iota(Len(shape)))) + 1
IdxInShape(shape, ix) == Len(ix) = Len(shape) /\ \A k \in 1..Len(ix) : ix[k] \in 1..shape[k]

(* --------------------------------------------- fixed point / rational aid *)
(* TLC integers are 32-bit: rationals are compared by cross multiplication   *)
(* of small numbers only.                                                    *)
GcdI(a, b) == LET RECURSIVE G(_, _)
                  G(x, y) == IF y = 0 THEN x ELSE G(y, x % y)
              IN G(AbsI(a), AbsI(b))
Rat(n, d) == LET g0 == GcdI(n, d)
                 g == IF g0 = 0 THEN 1 ELSE g0
                 s == IF d < 0 THEN -1 ELSE 1
             IN <<(s * n) \div g, (s * d) \div g>>
(* results that do not fit are RUn (absorbing); validators do not judge it   *)
RLim == 1073741823
RUn == <<1, 2147483629>>
RFits(x, y) == y = 0 \/ AbsI(x) <= RLim \div AbsI(y)
RAdd(a, b) == IF a = RUn \/ b = RUn THEN RUn
              ELSE LET g == GcdI(a[2], b[2])
                       p == b[2] \div g
                       q == a[2] \div g
                   IN IF RFits(a[1], p) /\ RFits(b[1], q) /\ RFits(a[2], p) THEN Rat(a[1] * p + b[1] * q, a[2] * p) ELSE RUn
RNeg(a) == IF a = RUn THEN RUn ELSE <<-a[1], a[2]>>
RSub(a, b) == RAdd(a, RNeg(b))
RMul(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN <<0, 1>>
              ELSE IF a = RUn \/ b = RUn THEN RUn
              ELSE LET g1 == MaxI(1, GcdI(a[1], b[2]))
                       g2 == MaxI(1, GcdI(b[1], a[2]))
                   IN IF RFits(a[1] \div g1, b[1] \div g2) /\ RFits(a[2] \div g2, b[2] \div g1)
                      THEN Rat((a[1] \div g1) * (b[1] \div g2), (a[2] \div g2) * (b[2] \div g1)) ELSE RUn
RInv(a) == IF a = RUn THEN RUn ELSE Rat(a[2], a[1])
RDiv(a, b) == RMul(a, RInv(b))
RLe(a, b) == RSub(b, a)[1] >= 0
RLt(a, b) == RSub(b, a)[1] > 0
RInt(n) == <<n, 1>>
RSum(s) == FoldLeft(LAMBDA a, b: RAdd(a, b), <<0, 1>>, s)
RPow(a, n) == LET RECURSIVE P(_)
                  P(k) == IF k = 0 THEN <<1, 1>> ELSE RMul(a, P(k - 1))
              IN P(n)
=============================================================================
