------------------------------ MODULE IntegSpec ------------------------------
(* Exact moments of the measures (rationals), and of composite rules.        *)
(* mu.kind: "uniform" (a, b), "lebesgue" (a, b), "normal" (m, s),            *)
(*          "discrete" (x, w), "kernel" (x; h = hn/hd): mean of normal laws  *)
(*          of standard deviation h centred at the points x.                 *)
EXTENDS VBase
RSumTo(n, f(_)) == FoldLeft(LAMBDA acc, k: RAdd(acc, f(k)), <<0, 1>>, Iota(n))
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE IF k > n THEN 0 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
RECURSIVE DFact(_)
DFact(n) == IF n <= 0 THEN 1 ELSE n * DFact(n - 2)
LebMoment(a, b, k) == RSub(Rat(PowI(b, k + 1), k + 1), Rat(PowI(a, k + 1), k + 1))
(* centred at the rational c, variance h^2 given as the rational v           *)
NormMoment(c, v, k) == RSumTo((k \div 2) + 1, LAMBDA j: RMul(RMul(RInt(Binom(k, 2 * (j - 1)) * DFact(2 * (j - 1) - 1)), RPow(c, k - 2 * (j - 1))), RPow(v, j - 1)))
Moment(mu, k) ==
    CASE mu.kind = "lebesgue" -> LebMoment(mu.a, mu.b, k)
      [] mu.kind = "uniform" -> RMul(LebMoment(mu.a, mu.b, k), Rat(1, mu.b - mu.a))
      [] mu.kind = "normal" -> NormMoment(RInt(mu.m), RInt(mu.s * mu.s), k)
      [] mu.kind = "discrete" -> Rat(SumTo(Len(mu.x), LAMBDA i: mu.w[i] * PowI(mu.x[i], k)), IF mu.normed THEN SumSeq(mu.w) ELSE 1)
      [] mu.kind = "kernel" -> RMul(Rat(1, Len(mu.x)), RSumTo(Len(mu.x), LAMBDA i: NormMoment(RInt(mu.x[i]), Rat(mu.hn * mu.hn, mu.hd * mu.hd), k)))
Lower(mu) == CASE mu.kind \in {"lebesgue", "uniform"} -> mu.a [] mu.kind = "discrete" -> MinSeq(mu.x) [] OTHER -> -100000
Upper(mu) == CASE mu.kind \in {"lebesgue", "uniform"} -> mu.b [] mu.kind = "discrete" -> MaxSeq(mu.x) [] OTHER -> 100000

(* ------------------------------------------------------------------ model *)
(* a composite rule grows by one piece at a time, its moments add up to the  *)
(* ones of the union                                                         *)
CONSTANTS A, K
VARIABLES knots, moms
Init == \E a \in -A..A : knots = <<a>> /\ moms = [k \in 1..K |-> <<0, 1>>]
Next == \E b \in -A..A : /\ b > knots[Len(knots)]
                         /\ knots' = Append(knots, b)
                         /\ moms' = [k \in 1..K |-> RAdd(moms[k], LebMoment(knots[Len(knots)], b, k - 1))]
Additive == \A k \in 1..K : moms[k] = LebMoment(knots[1], knots[Len(knots)], k - 1)
Mass == moms[1] = RInt(knots[Len(knots)] - knots[1])
(* a law with two equal halves; shifting a normal law                        *)
Halves == Len(knots) > 1 => \A k \in 0..K : Moment([kind |-> "uniform", a |-> knots[1], b |-> knots[Len(knots)]], k) =
                              RMul(Rat(1, knots[Len(knots)] - knots[1]), LebMoment(knots[1], knots[Len(knots)], k))
Shifted == \A k \in 0..3, s \in 0..2 : NormMoment(RInt(knots[1] + 1), RInt(s * s), k) =
              RSumTo(k + 1, LAMBDA j: RMul(RInt(Binom(k, j - 1)), NormMoment(RInt(knots[1]), RInt(s * s), j - 1)))
=============================================================================
