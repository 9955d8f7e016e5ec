------------------------------ MODULE GenSpec ------------------------------
(* Generated multi-index sets (C13) by their defining inequalities.  The     *)
(* bound and the weights are integers over a common denominator r.den.       *)
(* p-norm codes: 0 = infinity norm, p = p-norm, -2 = the 1/2-"norm".         *)
(*                                                                           *)
(* State machine: a set grows from the zero index by all the indices of its  *)
(* reduced margin that satisfy the inequality; it stays closed downwards and *)
(* stops exactly at the set defined.                                         *)
EXTENDS MultiIndexSpec
CONSTANTS MD, MB, MW
VARIABLES gr, gS
Ceil(a, b) == (a + b - 1) \div b
(* the 1/2-norm, on at most two nonzero entries: (sqrt a + sqrt b)^2 <= m    *)
HalfLe(i, m, den) ==
    LET nz == SelectSeq(i, LAMBDA x: x > 0)
    IN IF Len(nz) = 0 THEN TRUE
       ELSE IF Len(nz) = 1 THEN den * nz[1] <= m
       ELSE LET a == nz[1]
                b == nz[2]
                t == m - den * (a + b)          \* 2 den sqrt(ab) <= t
            IN t >= 0 /\ 4 * den * den * a * b <= t * t
InNorm(r, i) == IF r.p = -2 THEN HalfLe(i, r.m, r.den)
                ELSE NormP([k \in Dims(i) |-> r.den * i[k]], r.p) <= BoundP(r.m, r.p)
InWeighted(r, i) == WNormP(i, r.p, r.w) <= BoundP(r.m, r.p)
ProdP1(i, w) == ProdSeq([k \in Dims(i) |-> PowI(i[k] + 1, w[k])])
(* real weights w/2: prod (i+1)^w against (m+1)^2; ties may go either way    *)
TopOf(w, lim) == LET RECURSIVE Grow(_)
                     Grow(t) == IF PowI(t + 2, w) <= lim THEN Grow(t + 1) ELSE t
                 IN Grow(0)
RealCross(r, strict) == LET lim == (r.m + 1) * (r.m + 1)
                        IN {i \in Box([k \in 1..r.d |-> TopOf(r.w[k], lim)], 0) : LET q == ProdP1(i, r.w)
                                                                                              IN q < lim \/ (~strict /\ q = lim)}
BadReal(r) == IF RealCross(r, TRUE) \subseteq RangeOf(r.out) /\ RangeOf(r.out) \subseteq RealCross(r, FALSE) THEN {} ELSE {"set"}
Wanted(r) ==
    CASE r.op = "norm"     -> {i \in Box([k \in 1..r.d |-> r.m \div r.den], 0) : InNorm(r, i)}
      [] r.op = "wnorm"    -> {i \in Box([k \in 1..r.d |-> r.m \div r.w[k]], 0) : InWeighted(r, i)}
      [] r.op = "cross"    -> {i \in Box([k \in 1..r.d |-> r.m], 0) : ProdP1(i, [k \in 1..r.d |-> 1]) <= r.m + 1}
      [] r.op = "wcross"   -> {i \in Box([k \in 1..r.d |-> TopOf(r.w[k], r.m + 1)], 0) : ProdP1(i, r.w) <= r.m + 1}
      [] r.op = "loworder" -> {i \in Box(r.top, 0) : Cardinality({k \in 1..r.d : i[k] > 0}) <= r.m}
      [] r.op = "box"      -> Box(r.top, r.m)
      [] r.op = "product"  -> LET RECURSIVE P(_)
                                  P(n) == IF n = 0 THEN {<<>>} ELSE {a \o b : <<a, b>> \in P(n - 1) \X RangeOf(r.sets[n])}
                              IN P(Len(r.sets))
(* first factor fastest *)
ProductOrder(r) ==
    LET sh == [k \in 1..Len(r.sets) |-> Len(r.sets[k])]
    IN [p \in 1..Size(sh) |-> LET ix == UnIdx(sh, p)
                              IN FoldLeft(LAMBDA a, k: a \o r.sets[k][ix[k]], <<>>, Iota(Len(sh)))]

Defs ==
    UNION {
      {[op |-> "norm", d |-> d, p |-> p, m |-> m, den |-> den, w |-> <<>>] : d \in 1..MD, p \in {0, 1, 2, 3}, m \in 0..MB, den \in 1..2},
      {[op |-> "norm", d |-> d, p |-> -2, m |-> m, den |-> den, w |-> <<>>] : d \in 1..(IF MD < 2 THEN MD ELSE 2), m \in 0..MB, den \in 1..2},
      UNION {{[op |-> t, d |-> d, p |-> p, m |-> m, den |-> 1, w |-> w] : t \in {"wnorm", "wcross"}, p \in {0, 1, 2}, m \in 0..MB, w \in [1..d -> 1..MW]} : d \in 1..MD},
      {[op |-> "cross", d |-> d, p |-> 0, m |-> m, den |-> 1, w |-> <<>>] : d \in 1..MD, m \in 0..MB} }
Zero(d) == [q \in 1..d |-> 0]
GenInit == gr \in Defs /\ gS = {Zero(gr.d)}
Grown == {i \in Reduced(gS) : i \in Wanted(gr)}
GenNext == Grown # {} /\ gS' = gS \cup Grown /\ UNCHANGED gr
Inside == gS \subseteq Wanted(gr)
Closed == DownClosed(gS, 0)
Exact == Grown = {} => gS = Wanted(gr)
(* relations between the families *)
Ones(d) == [q \in 1..d |-> 1]
Same == LET W == Wanted(gr) IN
    /\ gr.op = "norm" /\ gr.p = 0 => W = Box([q \in 1..gr.d |-> gr.m \div gr.den], 0)
    /\ gr.op = "wnorm" /\ gr.w = Ones(gr.d) => W = Wanted([gr EXCEPT !.op = "norm"])
    /\ gr.op = "wcross" /\ gr.w = Ones(gr.d) => W = Wanted([gr EXCEPT !.op = "cross"])
    /\ gr.op = "cross" => Wanted([gr EXCEPT !.op = "norm", !.p = 1]) \subseteq Wanted([gr EXCEPT !.op = "norm", !.p = 0]) /\ W \subseteq Wanted([gr EXCEPT !.op = "norm", !.p = 1])
    /\ gr.op = "norm" /\ gr.p \in {1, 2} => W \subseteq Wanted([gr EXCEPT !.p = @ + 1])
    /\ \A q \in 1..gr.d : gr.op \in {"norm", "cross"} => {[i EXCEPT ![q] = i[1], ![1] = i[q]] : i \in W} = W
=============================================================================
