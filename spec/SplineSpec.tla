------------------------------ MODULE SplineSpec -----------------------------
(* B-splines on strictly increasing integer knots (by the Cox - de Boor      *)
(* recursion), dilated cardinal B-splines, and discontinuous piecewise       *)
(* polynomials on meshes, with the meshes refined towards singularities.     *)
(* A behaviour of the model inserts knots from left to right.                *)
EXTENDS VBase, TLC
R0 == <<0, 1>>
R1 == <<1, 1>>
(* ---------------------------------------------------------------- splines *)
(* number of B-splines of degree m                                           *)
Card(t, m) == Len(t) - 1 - m
(* value of the i-th B-spline of degree m at the rational x                  *)
RECURSIVE B(_, _, _, _)
B(t, i, m, x) ==
    IF RLe(x, RInt(t[i])) \/ RLt(RInt(t[i + m + 1]), x) THEN R0
    ELSE IF m = 0 THEN R1
    ELSE RAdd(RMul(RDiv(RSub(x, RInt(t[i])), RInt(t[i + m] - t[i])), B(t, i, m - 1, x)),
              RMul(RDiv(RSub(RInt(t[i + m + 1]), x), RInt(t[i + m + 1] - t[i + 1])), B(t, i + 1, m - 1, x)))
(* its k-th derivative                                                       *)
RECURSIVE D(_, _, _, _, _)
D(t, i, m, k, x) ==
    IF k = 0 THEN B(t, i, m, x) ELSE IF m = 0 THEN R0
    ELSE RMul(RInt(m), RSub(RDiv(D(t, i, m - 1, k - 1, x), RInt(t[i + m] - t[i])),
                            RDiv(D(t, i + 1, m - 1, k - 1, x), RInt(t[i + m + 1] - t[i + 1]))))
Cardinal(m) == [k \in 1..m + 2 |-> k - 1]
Extra(t, m) == [k \in 1..m |-> t[1] + (k - 1 - m) * (t[2] - t[1])] \o t \o [k \in 1..m |-> t[Len(t)] + k * (t[Len(t)] - t[Len(t) - 1])]
(* dilated and translated cardinal B-spline (up to the factor b^(l/2)), and  *)
(* the indices whose support meets (0, 1)                                    *)
Dil(m, b, l, j, k, x) == D(Cardinal(m), 1, m, k, RSub(RMul(RInt(PowI(b, l)), x), RInt(j)))
Levels(m, b, L) == UNION {{<<l, j>> : j \in -m..PowI(b, l) - 1} : l \in 0..L}

(* -------------------------------------------------- piecewise polynomials *)
(* Legendre polynomial and derivatives at y in [-1, 1]                       *)
RECURSIVE Leg(_, _, _)
Leg(n, k, y) == IF k < 0 THEN R0
                ELSE IF k = 0 THEN (IF n = 0 THEN R1 ELSE IF n = 1 THEN y
                      ELSE RDiv(RSub(RMul(RMul(RInt(2 * n - 1), y), Leg(n - 1, 0, y)), RMul(RInt(n - 1), Leg(n - 2, 0, y))), RInt(n)))
                ELSE IF n < k THEN R0
                ELSE RAdd(IF n >= 2 THEN Leg(n - 2, k, y) ELSE R0, RMul(RInt(2 * n - 1), Leg(n - 1, k - 1, y)))
(* the element of x: half-open to the right, except the last one             *)
Elem(p, x) == CHOOSE i \in 1..Len(p) - 1 : RLe(p[i], x) /\ (RLt(x, p[i + 1]) \/ (i = Len(p) - 1 /\ x = p[i + 1]))
(* k-th derivative of the Legendre polynomial of degree n of element i,      *)
(* (orthonormal after multiplication by sqrt((2n+1)/h))                      *)
Piece(p, i, n, k, x) ==
    IF Elem(p, x) # i THEN R0
    ELSE LET h == RSub(p[i + 1], p[i])
         IN RMul(RPow(RDiv(RInt(2), h), k), Leg(n, k, RSub(RDiv(RMul(RInt(2), RSub(x, p[i])), h), R1)))
(* the columns: <<element, degree>>                                          *)
Cols(deg) == FoldLeft(LAMBDA acc, i: acc \o [n \in 1..deg[i] + 1 |-> <<i, n - 1>>], <<>>, Iota(Len(deg)))
(* value of a piecewise polynomial given by integer coefficients             *)
Horner(c, x) == FoldLeft(LAMBDA acc, i: RAdd(RMul(acc, x), RInt(c[Len(c) + 1 - i])), R0, Iota(Len(c)))

(* mesh of (a, b) refined towards the singularities: on each interval between *)
(* consecutive singularities or ends, elements halve towards the singular    *)
(* ends until they are not larger than 2^-ne of the interval, and the degree *)
(* is the distance, in elements, to the nearest singular end                 *)
Half(k) == Rat(1, PowI(2, k))
Ladder(ne) == <<R0>> \o [k \in 1..ne |-> Half(ne + 1 - k)]                     \* 0, 2^-ne, ..., 1/2
Local(left, right, ne) ==
    IF left /\ right THEN [x |-> Ladder(ne) \o [k \in 1..ne |-> RSub(R1, Ladder(ne)[ne + 1 - k])],
                           p |-> [k \in 1..ne |-> k - 1] \o [k \in 1..ne |-> ne - k]]
    ELSE IF left THEN [x |-> Ladder(ne) \o <<R1>>, p |-> [k \in 1..ne + 1 |-> k - 1]]
    ELSE [x |-> Reverse([k \in 1..ne + 2 |-> RSub(R1, (Ladder(ne) \o <<R1>>)[k])]), p |-> [k \in 1..ne + 1 |-> ne + 1 - k]]
Adapted(a, b, S, ne) ==
    LET e == Sorted({a, b} \union S)
        loc == [i \in 1..Len(e) - 1 |-> Local(e[i] \in S, e[i + 1] \in S, ne)]
        map(i, u) == RAdd(RInt(e[i]), RMul(RInt(e[i + 1] - e[i]), u))
    IN [x |-> FoldLeft(LAMBDA acc, i: acc \o [k \in 1..Len(loc[i].x) - 1 |-> map(i, loc[i].x[k])], <<>>, Iota(Len(loc))) \o <<RInt(b)>>,
        p |-> FoldLeft(LAMBDA acc, i: acc \o loc[i].p, <<>>, Iota(Len(loc)))]

(* ------------------------------------------------------------------ model *)
CONSTANTS TMAX, M
VARIABLES t
Init == t = <<0>>
Next == Len(t) < M + 4 /\ \E s \in 1..2 : t[Len(t)] + s <= TMAX /\ t' = Append(t, t[Len(t)] + s)
Xs == {Rat(k, 2) : k \in (2 * t[1] - 1)..(2 * t[Len(t)] + 1)}
Big == Len(t) >= M + 2
Is == 1..Card(t, M)
(* divided difference of the truncated power: an independent definition      *)
Trunc(i, x) == LET J == i..i + M + 1
                   w(j) == RInv(RInt(FoldSet(LAMBDA l, acc: acc * (t[j] - t[l]), 1, J \ {j})))
                   pw(j) == IF RLt(RInt(t[j]), x) THEN R0 ELSE RPow(RSub(RInt(t[j]), x), M)
               IN RMul(RInt(t[i + M + 1] - t[i]), FoldSet(LAMBDA j, acc: RAdd(acc, RMul(w(j), pw(j))), R0, J))
Divided == Big => \A i \in Is : \A x \in Xs : B(t, i, M, x) = Trunc(i, x)
Nonneg == Big => \A i \in Is : \A x \in Xs :
            LET v == B(t, i, M, x)
                met == RLt(RInt(t[i]), x) /\ (RLt(x, RInt(t[i + M + 1])) \/ (M = 0 /\ x = RInt(t[i + 1])))
            IN v[1] >= 0 /\ (met <=> v[1] > 0)
Inside(x) == Len(t) >= 2 * M + 2 /\ RLt(RInt(t[M + 1]), x) /\ RLe(x, RInt(t[Len(t) - M]))
Unity == Big => \A x \in Xs : Inside(x) => RSum([i \in Is |-> B(t, i, M, x)]) = R1 /\ RSum([i \in Is |-> D(t, i, M, 1, x)]) = R0
(* Leibniz form of the derivative of the recursion                           *)
RECURSIVE Lz(_, _, _, _)
Lz(i, m, k, x) ==
    IF k = 0 THEN B(t, i, m, x) ELSE IF m = 0 THEN R0
    ELSE LET a == t[i + m] - t[i]  c == t[i + m + 1] - t[i + 1] IN
         RAdd(RMul(RInt(k), RSub(RDiv(Lz(i, m - 1, k - 1, x), RInt(a)), RDiv(Lz(i + 1, m - 1, k - 1, x), RInt(c)))),
              RAdd(RMul(RDiv(RSub(x, RInt(t[i])), RInt(a)), Lz(i, m - 1, k, x)), RMul(RDiv(RSub(RInt(t[i + m + 1]), x), RInt(c)), Lz(i + 1, m - 1, k, x))))
Leibniz == Big => \A i \in Is : \A x \in Xs : \A k \in 1..M + 1 : D(t, i, M, k, x) = Lz(i, M, k, x)
(* restricted to (0, 1), the translates of level l sum to one and their      *)
(* indices are exactly those met by the interval                             *)
Dilates == Len(t) = 1 => \A l \in 0..1 : \A x \in {Rat(1, 4), Rat(1, 2), Rat(3, 4), R1} : \A b \in 2..3 :
             LET J == {j \in -M - 2..PowI(b, l) + 1 : \E y \in {Rat(k, 6) : k \in 1..5} \union {Rat(1, 12), Rat(11, 12)} : Dil(M, b, l, j, 0, y) # R0}
             IN J = {q[2] : q \in {e \in Levels(M, b, l) : e[1] = l}} /\ FoldSet(LAMBDA j, acc: RAdd(acc, Dil(M, b, l, j, 0, x)), R0, J) = R1
(* the Legendre polynomials are orthogonal: exact for degrees <= 3 by the    *)
(* five point closed Newton-Cotes (Boole) and Weddle rules                   *)
Weddle(f(_)) == RMul(Rat(1, 420), RSum([k \in 1..7 |-> RMul(RInt(<<41, 216, 27, 272, 27, 216, 41>>[k]), f(Rat(k - 4, 3)))]))
Orthogonal == Len(t) = 1 => \A i \in 0..3 : \A j \in 0..3 : Weddle(LAMBDA y: RMul(Leg(i, 0, y), Leg(j, 0, y))) = (IF i = j THEN Rat(2, 2 * i + 1) ELSE R0)
(* derivative of cubic Legendre polynomials: central differences             *)
LegD == Len(t) = 1 => \A n \in 0..2 : \A y \in {Rat(k, 2) : k \in -2..2} :
          RMul(RInt(2), Leg(n, 1, y)) = RSub(Leg(n, 0, RAdd(y, R1)), Leg(n, 0, RSub(y, R1)))
(* refined meshes: increasing, nodes at the singularities, degree 0 and      *)
(* length <= 2^-ne of the interval next to them, degrees vary by at most one *)
Meshes == Len(t) = 1 => \A S \in (SUBSET (0..3)) \ {{}} : \A ne \in 1..3 :
    LET e == Sorted({0, 3} \union S) IN
    (\A i \in 1..Len(e) - 1 : e[i] \in S \/ e[i + 1] \in S) =>
    LET A == Adapted(0, 3, S, ne) IN
      /\ Len(A.p) = Len(A.x) - 1 /\ A.x[1] = R0 /\ A.x[Len(A.x)] = RInt(3)
      /\ \A k \in 1..Len(A.p) : RLt(A.x[k], A.x[k + 1])
      /\ \A s \in S : \E k \in 1..Len(A.x) : A.x[k] = RInt(s)
      /\ \A k \in 1..Len(A.p) : (A.x[k] \in {RInt(s) : s \in S} \/ A.x[k + 1] \in {RInt(s) : s \in S}) => A.p[k] = 0 /\ RLe(RSub(A.x[k + 1], A.x[k]), RMul(RInt(3), Half(ne)))
      /\ \A k \in 1..Len(A.p) - 1 : AbsI(A.p[k] - A.p[k + 1]) <= 1
=============================================================================
