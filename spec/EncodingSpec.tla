---------------------------- MODULE EncodingSpec ----------------------------
(* Flat index <-> multi-index, integer <-> base-b digits, point <->          *)
(* tensorised coordinates (C14).  A point of [0,1] is given as an integer t  *)
(* meaning t / (b^d q): its digits are those of t \div q, most significant   *)
(* first, its remainder (t % q) / q.                                         *)
EXTENDS VBase
Digits(n, b, d) == [k \in 1..d |-> (n \div PowI(b, d - k)) % b]
Undigits(s, b) == FoldLeft(LAMBDA a, x: a * b + x, 0, s)
RECURSIVE MinDigits(_, _)
MinDigits(n, b) == IF n < b THEN 1 ELSE 1 + MinDigits(n \div b, b)
(* the right end point belongs to the last cell, with remainder q *)
Cell(t, b, d, q) == MinI(t \div q, PowI(b, d) - 1)
PointDigits(t, b, d, q) == Digits(Cell(t, b, d, q), b, d)
PointRest(t, b, d, q) == t - q * Cell(t, b, d, q)
(* ordering 1: variable by variable; ordering 2: level by level *)
MapIndex(ts, b, d, q, ordering) ==
    LET m == Len(ts)
    IN [p \in 1..(m * d) |->
          LET k == IF ordering = 1 THEN ((p - 1) \div d) + 1 ELSE ((p - 1) % m) + 1
              l == IF ordering = 1 THEN ((p - 1) % d) + 1 ELSE ((p - 1) \div m) + 1
          IN PointDigits(ts[k], b, d, q)[l]]
MapRest(ts, b, d, q) == [k \in 1..Len(ts) |-> PointRest(ts[k], b, d, q)]
Unmap(ix, ys, b, d, q, ordering) ==
    LET m == Len(ys)
    IN [k \in 1..m |->
          q * Undigits([l \in 1..d |-> IF ordering = 1 THEN ix[(k - 1) * d + l] ELSE ix[(l - 1) * m + k]], b) + ys[k]]
(* a polynomial test function with integer coefficients, of integer points   *)
PolyAt(c, ts) == c[1] + SumTo(Len(ts), LAMBDA k: c[k + 1] * ts[k])
                 + (IF Len(ts) > 1 THEN ts[1] * ts[2] ELSE ts[1] * ts[1])

(* ------------------------------------------------ model: all small cases *)
CONSTANTS MB, MD, MQ
VARIABLES b, d, q, ts
ModelInit == b \in 2..MB /\ d \in 1..MD /\ q \in 1..MQ /\ ts \in {<<s1, s2>> : s1 \in 0..(PowI(b, d) * q), s2 \in 0..(MinI(PowI(b, d) * q, 7))}
ModelNext == FALSE /\ UNCHANGED <<b, d, q, ts>>
Bijective ==
    /\ \A o \in 1..2 : Unmap(MapIndex(ts, b, d, q, o), MapRest(ts, b, d, q), b, d, q, o) = ts
    /\ ts[1] < PowI(b, d) => Undigits(Digits(ts[1], b, d), b) = ts[1]
    /\ \A k \in 1..d : PointDigits(ts[1], b, d, q)[k] \in 0..(b - 1)
    /\ PointRest(ts[1], b, d, q) \in 0..q
    /\ UnIdx([k \in 1..d |-> b], Flat([k \in 1..d |-> b], [k \in 1..d |-> PointDigits(ts[1], b, d, q)[k] + 1]))
          = [k \in 1..d |-> PointDigits(ts[1], b, d, q)[k] + 1]
=============================================================================
