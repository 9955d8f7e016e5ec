------------------------------ MODULE FuncSpec -------------------------------
(* Functions of d variables as linear combinations of products of known      *)
(* univariate functions, with exact values, derivatives and statistics.      *)
(* fams[k]: the univariate functions of variable k, in t = (x - m) / s:      *)
(*   "legendre", "hermite": monic orthogonal polynomials of degrees idx;     *)
(*   "canon": monomials of degrees idx; "rows": polynomials with integer     *)
(*   coefficients rows[j]; "delta": indicators of the values v[j].           *)
(* law of t: uniform on [-1, 1] (legendre, canon, rows), standard normal     *)
(* (hermite), weights w on the values v (delta).                             *)
(* terms[i][k]: position of the function of variable k in the i-th term,     *)
(* coef[i][o]: coefficient of the i-th term of output o.                     *)
EXTENDS VBase, TLC
P == INSTANCE PolySpec WITH KMAX <- 1, fam <- "hermite", deg <- 0, cur <- <<>>, prev <- <<>>
I == INSTANCE IntegSpec WITH A <- 1, K <- 1, knots <- <<>>, moms <- <<>>
R0 == <<0, 1>>
R1 == <<1, 1>>
Size1(F) == IF F.kind = "rows" THEN Len(F.rows) ELSE IF F.kind = "delta" THEN Len(F.v) ELSE Len(F.idx)
(* coefficients in t                                                         *)
Poly(F, j) == CASE F.kind \in {"legendre", "hermite"} -> P!MCoef(F.kind, F.idx[j])
                [] F.kind = "canon" -> TLCEval([i \in 1..F.idx[j] + 1 |-> IF i = F.idx[j] + 1 THEN R1 ELSE R0])
                [] F.kind = "rows" -> TLCEval([i \in 1..Len(F.rows[j]) |-> RInt(F.rows[j][i])])
RECURSIVE Der(_, _)
Der(p, n) == IF n = 0 THEN p ELSE IF Len(p) = 1 THEN <<R0>> ELSE Der(TLCEval([i \in 1..Len(p) - 1 |-> RMul(RInt(i), p[i + 1])]), n - 1)
Horner(p, t) == FoldLeft(LAMBDA acc, i: RAdd(RMul(acc, t), p[Len(p) + 1 - i]), R0, Iota(Len(p)))
Val(F, j, n, x) == IF F.kind = "delta" THEN (IF x = RInt(F.v[j]) THEN R1 ELSE R0)
                   ELSE RMul(Horner(Der(Poly(F, j), n), RDiv(RSub(x, RInt(F.m)), RInt(F.s))), Rat(1, PowI(F.s, n)))
LawOf(F) == IF F.kind = "hermite" THEN [kind |-> "normal", m |-> 0, s |-> 1] ELSE [kind |-> "uniform", a |-> -1, b |-> 1]
Mom(F, k) == I!Moment(LawOf(F), k)
Mean1(F, j) == IF F.kind = "delta" THEN Rat(F.w[j], SumSeq(F.w)) ELSE P!Expect(Poly(F, j), LAMBDA k: Mom(F, k))
Dot1(F, i, j) == IF F.kind = "delta" THEN (IF i = j THEN Rat(F.w[j], SumSeq(F.w)) ELSE R0)
                 ELSE P!Expect(P!PolyMul(Poly(F, i), Poly(F, j)), LAMBDA k: Mom(F, k))
(* inner product of the first derivatives with respect to x                   *)
DDot1(F, i, j) == RMul(P!Expect(P!PolyMul(Der(Poly(F, i), 1), Der(Poly(F, j), 1)), LAMBDA k: Mom(F, k)), Rat(1, F.s * F.s))
(* tables of the univariate values, means and inner products                 *)
Vals(fams, ns, x) == TLCEval([k \in 1..Len(fams) |-> TLCEval([j \in 1..Size1(fams[k]) |-> Val(fams[k], j, ns[k], x[k])])])
Means(fams) == TLCEval([k \in 1..Len(fams) |-> TLCEval([j \in 1..Size1(fams[k]) |-> Mean1(fams[k], j)])])
Dots(fams) == TLCEval([k \in 1..Len(fams) |-> TLCEval([i \in 1..Size1(fams[k]) |-> TLCEval([j \in 1..Size1(fams[k]) |-> Dot1(fams[k], i, j)])])])
ProdOver(S, f(_)) == FoldLeft(LAMBDA acc, k: IF acc[1] = 0 THEN acc ELSE RMul(acc, f(k)), R1, S)
SumTerms(n, f(_)) == FoldLeft(LAMBDA acc, i: RAdd(acc, f(i)), R0, Iota(n))
(* combination of the terms with one factor per variable taken in the tables *)
Combine(terms, coef, o, T) == SumTerms(Len(terms), LAMBDA i: IF coef[i][o] = 0 THEN R0 ELSE
                                RMul(RInt(coef[i][o]), ProdOver(Iota(Len(terms[i])), LAMBDA k: T[k][terms[i][k]])))
Ev(f, o, ns, x) == Combine(f.terms, f.coef, o, Vals(f.fams, ns, x))
MeanF(f, o) == Combine(f.terms, f.coef, o, Means(f.fams))
(* E[f_o g_q] for two functions on the same terms                            *)
DotF(f, o, coef2, q, D) == SumTerms(Len(f.terms), LAMBDA i: IF f.coef[i][o] = 0 THEN R0 ELSE
      RMul(RInt(f.coef[i][o]), SumTerms(Len(f.terms), LAMBDA j: IF coef2[j][q] = 0 THEN R0 ELSE
          RMul(RInt(coef2[j][q]), ProdOver(Iota(Len(f.fams)), LAMBDA k: D[k][f.terms[i][k]][f.terms[j][k]])))))
(* E[grad f_o . grad g_q]                                                      *)
GradDotF(f, o, coef2, q) ==
    LET D == Dots(f.fams)
        DD == TLCEval([k \in 1..Len(f.fams) |-> TLCEval([i \in 1..Size1(f.fams[k]) |-> TLCEval([j \in 1..Size1(f.fams[k]) |-> DDot1(f.fams[k], i, j)])])])
    IN SumTerms(Len(f.fams), LAMBDA k: DotF(f, o, coef2, q, [D EXCEPT ![k] = DD[k]]))
(* E[f | x_dims] at the points x (whose coordinates outside dims are unused) *)
CondF(f, o, dims, x) == LET V == Vals(f.fams, [k \in 1..Len(f.fams) |-> 0], x)
                            M == Means(f.fams)
                        IN Combine(f.terms, f.coef, o, TLCEval([k \in 1..Len(f.fams) |-> IF k \in dims THEN V[k] ELSE M[k]]))
(* E[E[f | x_dims]^2]                                                        *)
CondDot(f, o, dims) == LET D == Dots(f.fams)
                           M == Means(f.fams)
                       IN SumTerms(Len(f.terms), LAMBDA i: IF f.coef[i][o] = 0 THEN R0 ELSE
                            RMul(RInt(f.coef[i][o]), SumTerms(Len(f.terms), LAMBDA j: IF f.coef[j][o] = 0 THEN R0 ELSE
                              RMul(RInt(f.coef[j][o]), ProdOver(Iota(Len(f.fams)), LAMBDA k:
                                IF k \in dims THEN D[k][f.terms[i][k]][f.terms[j][k]] ELSE RMul(M[k][f.terms[i][k]], M[k][f.terms[j][k]]))))))
VarF(f, o) == RSub(DotF(f, o, f.coef, o, Dots(f.fams)), RMul(MeanF(f, o), MeanF(f, o)))
VCond(f, o, dims) == RSub(CondDot(f, o, dims), RMul(MeanF(f, o), MeanF(f, o)))

(* ------------------------------------------------------------------ model *)
(* a function of two variables is built coefficient by coefficient           *)
CONSTANTS CMAX, FAM1, FAM2
VARIABLES fn
Fam(k) == [kind |-> k, idx |-> <<0, 1>>, m |-> 0, s |-> 1, rows |-> <<<<1, 0, 1>>, <<0, 1>>>>, v |-> <<-1, 1>>, w |-> <<1, 3>>]
Grid2 == <<<<1, 1>>, <<2, 1>>, <<1, 2>>, <<2, 2>>>>
Init == fn = [fams |-> <<Fam(FAM1), Fam(FAM2)>>, terms |-> <<>>, coef |-> <<>>]
Next == /\ Len(fn.terms) < 4
        /\ \E c \in -CMAX..CMAX : fn' = [fn EXCEPT !.terms = Append(@, Grid2[Len(@) + 1]), !.coef = Append(@, <<c>>)]
Pts == {<<RInt(a), RInt(b)>> : <<a, b>> \in (-1..1) \X (-1..1)}
(* total expectation, law of total variance, projections                     *)
Tower == \A k \in 1..2 : LET D == Dots(fn.fams) IN CondDot(fn, 1, {}) = RMul(MeanF(fn, 1), MeanF(fn, 1)) /\ CondDot(fn, 1, 1..2) = DotF(fn, 1, fn.coef, 1, D)
Total == LET v == VarF(fn, 1) a == VCond(fn, 1, {1}) b == VCond(fn, 1, {2}) IN a[1] >= 0 /\ b[1] >= 0 /\ RLe(RAdd(a, b), v)
Additive == (Len(fn.coef) = 4 /\ fn.coef[4][1] = 0 /\ FAM1 # "rows" /\ FAM2 # "rows" /\ FAM1 # "delta" /\ FAM2 # "delta") => RAdd(VCond(fn, 1, {1}), VCond(fn, 1, {2})) = VarF(fn, 1)
Conds == \A x \in Pts : CondF(fn, 1, {}, x) = MeanF(fn, 1) /\ CondF(fn, 1, 1..2, x) = Ev(fn, 1, <<0, 0>>, x)
(* affine variables: the derivative is the slope                             *)
Slope == (FAM1 \in {"legendre", "hermite", "canon"}) => \A x \in Pts :
            RMul(RInt(2), Ev(fn, 1, <<1, 0>>, x)) = RSub(Ev(fn, 1, <<0, 0>>, <<R1, x[2]>>), Ev(fn, 1, <<0, 0>>, <<<<-1, 1>>, x[2]>>))
=============================================================================
