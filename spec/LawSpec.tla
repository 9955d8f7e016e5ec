------------------------------- MODULE LawSpec -------------------------------
(* Laws of real random variables as exact objects: uniform on [a, b], normal *)
(* (m, s), discrete (values x, integer weights w), all parameters rational.  *)
(* A law evolves by the operations of the library (shift, standardisation,   *)
(* the two discretisations); the history is replayed on the real classes.    *)
EXTENDS VBase, Json, TLC
R0 == <<0, 1>>
R1 == <<1, 1>>
RSumTo(n, f(_)) == FoldLeft(LAMBDA acc, k: RAdd(acc, f(k)), R0, Iota(n))
Uniform(a, b) == [kind |-> "uniform", a |-> a, b |-> b]
Normal(m, s) == [kind |-> "normal", m |-> m, s |-> s]
Discrete(x, w) == TLCEval([kind |-> "discrete", x |-> TLCEval(x), w |-> TLCEval(w)])
Tot(L) == SumSeq(L.w)
RMin(s) == FoldLeft(LAMBDA p, q: IF RLt(q, p) THEN q ELSE p, s[1], s)
RMax(s) == FoldLeft(LAMBDA p, q: IF RLt(p, q) THEN q ELSE p, s[1], s)
(* weight of a discrete law on ]-inf, x] and ]-inf, x[                       *)
Below(L, x) == SumTo(Len(L.x), LAMBDA i: IF RLe(L.x[i], x) THEN L.w[i] ELSE 0)
Under(L, x) == SumTo(Len(L.x), LAMBDA i: IF RLt(L.x[i], x) THEN L.w[i] ELSE 0)
Cdf(L, x) == CASE L.kind = "uniform" -> IF RLe(x, L.a) THEN R0 ELSE IF RLe(L.b, x) THEN R1 ELSE RDiv(RSub(x, L.a), RSub(L.b, L.a))
               [] L.kind = "discrete" -> Rat(Below(L, x), Tot(L))
Pdf(L, x) == IF RLt(x, L.a) \/ RLt(L.b, x) THEN R0 ELSE RInv(RSub(L.b, L.a))
(* set of acceptable quantiles at the level p in ]0, 1]; at a level reached  *)
(* exactly by the distribution function, the next value is accepted as well  *)
(* unless strict                                                             *)
IsQuant(L, p, x, strict) ==
    CASE L.kind = "uniform" -> x = RAdd(L.a, RMul(p, RSub(L.b, L.a)))
      [] L.kind = "discrete" -> /\ x \in RangeOf(L.x) /\ RLe(p, Rat(Below(L, x), Tot(L)))
                                /\ IF strict THEN RLt(Rat(Under(L, x), Tot(L)), p) ELSE RLe(Rat(Under(L, x), Tot(L)), p)
Quant(L, p) == IF L.kind = "uniform" THEN RAdd(L.a, RMul(p, RSub(L.b, L.a)))
               ELSE L.x[CHOOSE i \in 1..Len(L.x) : IsQuant(L, p, L.x[i], TRUE)]
Tie(L, p) == L.kind = "discrete" /\ \E i \in 1..Len(L.x) : Rat(Below(L, L.x[i]), Tot(L)) = p
RECURSIVE Binom(_, _)
Binom(n, k) == IF k = 0 \/ k = n THEN 1 ELSE IF k > n THEN 0 ELSE Binom(n - 1, k - 1) + Binom(n - 1, k)
RECURSIVE DFact(_)
DFact(n) == IF n <= 0 THEN 1 ELSE n * DFact(n - 2)
Moment(L, k) ==
    CASE L.kind = "uniform" -> RDiv(RSub(RPow(L.b, k + 1), RPow(L.a, k + 1)), RMul(RInt(k + 1), RSub(L.b, L.a)))
      [] L.kind = "normal" -> RSumTo((k \div 2) + 1, LAMBDA j: RMul(RMul(RInt(Binom(k, 2 * (j - 1)) * DFact(2 * j - 3)), RPow(L.m, k - 2 * (j - 1))), RPow(L.s, 2 * (j - 1))))
      [] L.kind = "discrete" -> RMul(RSumTo(Len(L.x), LAMBDA i: RMul(RInt(L.w[i]), RPow(L.x[i], k))), Rat(1, Tot(L)))
Mean(L) == Moment(L, 1)
Var(L) == RSub(Moment(L, 2), RMul(Mean(L), Mean(L)))
Lower(L) == IF L.kind = "uniform" THEN L.a ELSE RMin(L.x)
Upper(L) == IF L.kind = "uniform" THEN L.b ELSE RMax(L.x)
(* mids of the n equal cells of [0, 1]                                       *)
Mid(n, k) == Rat(2 * k - 1, 2 * n)

(* ------------------------------------------------------------- operations *)
ShiftBy(L, b, s) == CASE L.kind = "uniform" -> Uniform(RAdd(RMul(s, L.a), b), RAdd(RMul(s, L.b), b))
                      [] L.kind = "normal" -> Normal(RAdd(L.m, b), RMul(L.s, s))
                      [] L.kind = "discrete" -> Discrete([i \in 1..Len(L.x) |-> RAdd(RMul(s, L.x[i]), b)], L.w)
Std(L) == IF L.kind = "uniform" THEN Uniform(<<-1, 1>>, R1) ELSE Normal(R0, R1)
(* equal weights on the quantiles of the mids                                *)
Equal(L, n) == Discrete([k \in 1..n |-> Quant(L, Mid(n, k))], [k \in 1..n |-> 1])
(* cells around given increasing points: probabilities of the cells          *)
CellP(L, x, k) == LET hi == IF k = Len(x) THEN R1 ELSE Cdf(L, RMul(Rat(1, 2), RAdd(x[k], x[k + 1])))
                      lo == IF k = 1 THEN R0 ELSE Cdf(L, RMul(Rat(1, 2), RAdd(x[k - 1], x[k])))
                  IN RSub(hi, lo)
LcmI(a, b) == (a \div GcdI(a, b)) * b
Cells(L, x) == LET p == TLCEval([k \in 1..Len(x) |-> CellP(L, x, k)])
                   q == FoldLeft(LAMBDA acc, k: LcmI(acc, p[k][2]), 1, Iota(Len(x)))
               IN Discrete(x, [k \in 1..Len(x) |-> p[k][1] * (q \div p[k][2])])
Even(L, n) == TLCEval([k \in 1..n |-> RAdd(Lower(L), RMul(Mid(n, k), RSub(Upper(L), Lower(L))))])
Do(L, o) == CASE o.op = "shift" -> ShiftBy(L, RInt(o.b), RInt(o.s))
              [] o.op = "std" -> Std(L)
              [] o.op = "discretize" -> Equal(L, o.n)
              [] o.op = "support" -> Cells(L, Even(L, o.n))
              [] o.op = "points" -> Cells(L, [k \in 1..Len(o.x) |-> RInt(o.x[k])])
RECURSIVE Play(_, _)
Play(L, h) == IF h = <<>> THEN L ELSE Play(TLCEval(Do(L, h[1])), Tail(h))
(* ------------------------------------------------------------------ model *)
CONSTANTS A, S, D
VARIABLES start, law, hist
Laws == {Uniform(RInt(a), RInt(b)) : <<a, b>> \in {q \in (-A..A) \X (-A..A) : q[1] < q[2]}}
        \cup {Normal(RInt(m), RInt(s)) : <<m, s>> \in (-A..A) \X (1..A)}
        \cup {Discrete([i \in 1..Len(v) |-> RInt(v[i])], w) : <<v, w>> \in
                UNION {{v \in [1..k -> -A..A] : NoDup(v)} \X [1..k -> 1..2] : k \in 1..2}}
Increasing == {x \in UNION {[1..k -> -A..A] : k \in 2..3} : \A i \in 1..Len(x) - 1 : x[i] < x[i + 1]}
Allowed(o) == CASE o.op = "shift" -> law.kind # "discrete"
                [] o.op = "std" -> law.kind # "discrete"
                [] o.op = "discretize" -> law.kind # "normal" /\ \A k \in 1..o.n : ~Tie(law, Mid(o.n, k))
                [] o.op = "support" -> law.kind = "uniform"
                [] o.op = "points" -> law.kind # "normal" /\ \A i \in 1..Len(o.x) - 1 : law.kind = "discrete" => ~(Rat(o.x[i] + o.x[i + 1], 2) \in RangeOf(law.x))
Apply(o) == /\ Allowed(o)
            /\ law' = Do(law, o) /\ hist' = Append(hist, o) /\ UNCHANGED start
Ops == {[op |-> "shift", b |-> b, s |-> s] : <<b, s>> \in (-A..A) \X (1..S)} \cup {[op |-> "std"]}
       \cup {[op |-> o, n |-> n] : <<o, n>> \in {"discretize", "support"} \X (1..3)} \cup {[op |-> "points", x |-> x] : x \in Increasing}
Init == start \in Laws /\ law = start /\ hist = <<>>
Next == Len(hist) < D /\ \E o \in Ops : Apply(o)
Pick(h) == LET k == RandomElement(1..8) IN
        IF k <= 3 THEN [op |-> "shift", b |-> RandomElement(-A..A), s |-> RandomElement(1..S)]
        ELSE IF k = 4 THEN [op |-> "std"] ELSE IF k <= 6 THEN [op |-> "discretize", n |-> RandomElement(1..5)]
        ELSE IF k = 7 THEN [op |-> "support", n |-> RandomElement(1..5)] ELSE [op |-> "points", x |-> RandomElement(Increasing)]
OfKind(k) == {l \in Laws : l.kind = k}
Blank == [kind |-> "none"]
SimInit == start = Blank /\ law = Blank /\ hist = <<>>
SimNext == IF start = Blank
           THEN /\ \E l \in {RandomElement(OfKind(RandomElement({"uniform", "normal", "discrete"})))} : start' = l /\ law' = l
                /\ UNCHANGED hist
           ELSE /\ Len(hist) < D
                /\ \E o \in {Pick(hist)} : IF Allowed(o) THEN Apply(o) ELSE UNCHANGED <<start, law, hist>>
Emit == Len(hist) < D \/ PrintT(ToJson([start |-> start, hist |-> hist, law |-> law]))
(* distribution and quantile functions are inverse of each other             *)
Levels == {Rat(k, 8) : k \in 1..8}
Galois == law.kind = "discrete" => \A p \in Levels, x \in RangeOf(law.x) : RLe(Quant(law, p), x) <=> RLe(p, Cdf(law, x))
InvCdf == law.kind = "uniform" => \A p \in Levels : Cdf(law, Quant(law, p)) = p
Unit == law.kind = "discrete" => Moment(law, 0) = R1 /\ Cdf(law, Upper(law)) = R1
VarPos == Var(law)[1] >= 0
(* effects of the operations on the statistics                               *)
Effect == LET o == hist'[Len(hist')] IN
    CASE o.op = "shift" -> /\ law.kind # "normal" => Mean(law') = RAdd(RInt(o.b), RMul(RInt(o.s), Mean(law)))
                           /\ law.kind = "normal" => Mean(law') = RAdd(Mean(law), RInt(o.b))
                           /\ Var(law') = RMul(RInt(o.s * o.s), Var(law))
      [] o.op = "std" -> Mean(law') = R0
      [] o.op \in {"discretize", "support"} -> law.kind = "uniform" => Mean(law') = Mean(law)
      [] o.op = "points" -> Tot(law') > 0
Effects == [][Effect]_<<start, law, hist>>
=============================================================================
