------------------------------ MODULE PolySpec -------------------------------
(* Classical orthogonal polynomials by their monic recurrences (exact        *)
(* rationals), and the definition of an orthonormal family.                  *)
(* fam: "legendre" (uniform law on [-1, 1]), "lebesgue" (Lebesgue measure on *)
(* [-1, 1]), "hermite" (standard normal law).                                *)
EXTENDS VBase
R0 == <<0, 1>>
R1 == <<1, 1>>
B(fam, k) == IF fam = "hermite" THEN RInt(k) ELSE Rat(k * k, 4 * k * k - 1)
Mass(fam) == IF fam = "lebesgue" THEN RInt(2) ELSE R1
H(fam, k) == RMul(Mass(fam), FoldLeft(LAMBDA acc, j: RMul(acc, B(fam, j)), R1, Iota(k)))
(* n-th derivatives at t of the monic polynomials of degrees 0..k            *)
RECURSIVE DSeq(_, _, _, _)
DSeq(fam, n, k, t) ==
    LET low == IF n = 0 THEN <<>> ELSE DSeq(fam, n - 1, k, t)
        RECURSIVE Go(_)
        Go(s) == IF Len(s) = k + 1 THEN s
                 ELSE LET d == Len(s) IN      \* degree to add
                      Go(Append(s, TLCEval(
                           IF d = 0 THEN (IF n = 0 THEN R1 ELSE R0)
                           ELSE LET q == RAdd(RMul(t, s[d]), IF n = 0 THEN R0 ELSE RMul(RInt(n), low[d]))
                                IN IF d = 1 THEN q ELSE RSub(q, RMul(B(fam, d - 1), s[d - 1])))))
    IN Go(<<>>)
Val(fam, k, t) == DSeq(fam, 0, k, t)[k + 1]
(* coefficients (of t^0, t^1, ...) of the monic polynomial of degree k       *)
RECURSIVE MCoef(_, _)
MCoef(fam, k) ==
    IF k = 0 THEN <<R1>>
    ELSE LET p == MCoef(fam, k - 1)
             q == IF k = 1 THEN <<>> ELSE MCoef(fam, k - 2)
         IN TLCEval([j \in 1..k + 1 |-> RSub(IF j = 1 THEN R0 ELSE p[j - 1], IF j <= Len(q) THEN RMul(B(fam, k - 1), q[j]) ELSE R0)])
PolyMul(p, q) == [j \in 1..Len(p) + Len(q) - 1 |->
                    RSum([i \in 1..Len(p) |-> IF j - i + 1 \in 1..Len(q) THEN RMul(p[i], q[j - i + 1]) ELSE R0])]
Expect(p, mom(_)) == RSum([j \in 1..Len(p) |-> RMul(p[j], mom(j - 1))])
Law(fam) == CASE fam = "legendre" -> [kind |-> "uniform", a |-> -1, b |-> 1]
              [] fam = "lebesgue" -> [kind |-> "lebesgue", a |-> -1, b |-> 1]
              [] fam = "hermite" -> [kind |-> "normal", m |-> 0, s |-> 1]

(* ------------------------------------------------------------------ model *)
CONSTANTS KMAX
VARIABLES fam, deg, cur, prev
I == INSTANCE IntegSpec WITH A <- 1, K <- 1, knots <- <<>>, moms <- <<>>
Init == fam \in {"legendre", "lebesgue", "hermite"} /\ deg = 0 /\ cur = <<R1>> /\ prev = <<>>
Next == /\ deg < KMAX
        /\ cur' = [j \in 1..deg + 2 |-> RSub(IF j = 1 THEN R0 ELSE cur[j - 1], IF j <= Len(prev) THEN RMul(B(fam, deg), prev[j]) ELSE R0)]
        /\ prev' = cur /\ deg' = deg + 1 /\ UNCHANGED fam
Mom(k) == I!Moment(Law(fam), k)
Orthogonal == \A k \in 0..deg - 1 : Expect(PolyMul(cur, [j \in 1..k + 1 |-> IF j = k + 1 THEN R1 ELSE R0]), Mom) = R0
Norm == Expect(PolyMul(cur, [j \in 1..deg + 1 |-> IF j = deg + 1 THEN R1 ELSE R0]), Mom) = H(fam, deg)
Monic == cur[deg + 1] = R1 /\ cur = MCoef(fam, deg)
Pt == {<<0, 1>>, <<1, 1>>, <<-1, 2>>, <<2, 1>>}
Horner(p, t) == RSum([j \in 1..Len(p) |-> RMul(p[j], RPow(t, j - 1))])
Deriv(p) == IF Len(p) = 1 THEN <<R0>> ELSE [j \in 1..Len(p) - 1 |-> RMul(RInt(j), p[j + 1])]
Values == \A t \in Pt : Val(fam, deg, t) = Horner(cur, t)
Derivs == \A t \in Pt : /\ DSeq(fam, 1, deg, t)[deg + 1] = Horner(Deriv(cur), t)
                        /\ DSeq(fam, 2, deg, t)[deg + 1] = Horner(Deriv(Deriv(cur)), t)
=============================================================================
