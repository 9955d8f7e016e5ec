------------------------------ MODULE C18Trace ------------------------------
EXTENDS VBase, TraceBase
F == INSTANCE FuncSpec WITH CMAX <- 1, FAM1 <- "canon", FAM2 <- "canon", fn <- <<>>
Same(v, q) == IF q[2] > 20000 \/ AbsI(q[1] \div q[2]) > 100000 THEN v[2] > 0 /\ v[1] # 2147483645 ELSE v = q
Outs(r) == 1..Len(r.coef[1])
Rows(r, f(_, _)) == Len(r.v) = Len(r.x) /\ \A i \in 1..Len(r.x) : Len(r.v[i]) = Len(r.coef[1]) /\ \A o \in Outs(r) : Same(r.v[i][o], f(o, r.x[i]))
PerOut(r, f(_)) == Len(r.v) = Len(r.coef[1]) /\ \A o \in Outs(r) : Same(r.v[o], f(o))
Ok(r) ==
    CASE r.op = "ev" -> Len(r.v) = Len(r.x) /\ \A i \in 1..Len(r.x) : Len(r.v[i]) = Len(r.coef[1]) /\
                         LET V == F!Vals(r.fams, r.ns, r.x[i]) IN \A o \in Outs(r) : Same(r.v[i][o], F!Combine(r.terms, r.coef, o, V))
      [] r.op = "mean" -> LET M == F!Means(r.fams) IN PerOut(r, LAMBDA o: F!Combine(r.terms, r.coef, o, M))
      [] r.op = "var" -> PerOut(r, LAMBDA o: F!VarF(r, o))
      [] r.op = "norm2" -> LET D == F!Dots(r.fams) IN PerOut(r, LAMBDA o: F!DotF(r, o, r.coef, o, D))
      [] r.op = "sum2" -> LET D == F!Dots(r.fams) IN Same(r.v[1], F!SumTerms(Len(r.coef[1]), LAMBDA o: F!DotF(r, o, r.coef, o, D)))
      [] r.op = "dot" -> LET D == F!Dots(r.fams) IN PerOut(r, LAMBDA o: F!DotF(r, o, r.coef2, o, D))
      [] r.op = "gram" -> LET D == F!Dots(r.fams) IN Len(r.v) = Len(r.coef[1]) /\ \A o \in Outs(r) : \A q \in Outs(r) : Same(r.v[o][q], F!DotF(r, o, r.coef, q, D))
      [] r.op = "gramh1" -> Len(r.v) = Len(r.coef[1]) /\ \A o \in Outs(r) : \A q \in Outs(r) : Same(r.v[o][q], F!GradDotF(r, o, r.coef, q))
      (* a basis declared orthonormal has the identity as Gram matrix (s2: squares of the scalings) *)
      [] r.op = "oflag" -> LET D == F!Dots(r.fams)
                               orth == \A o \in Outs(r) : \A q \in Outs(r) : Same(IF o = q THEN r.s2[o] ELSE <<0, 1>>, F!DotF(r, o, r.coef, q, D))
                           IN (r.flag => orth) /\ ((\A k \in 1..Len(r.fams) : r.fams[k].kind \in {"legendre", "hermite"}) => r.flag)
      (* inner products of products of combinations (columns / 5) of orthonormal
         functions; the announced orthonormality is the true one *)
      [] r.op = "subgram" -> \A P \in {[k \in 1..Len(r.mats) |-> [i \in 1..Len(r.mats[k]) |-> [j \in 1..Len(r.mats[k]) |->
                                       Rat(FoldLeft(LAMBDA a, q: a + r.mats[k][i][q] * r.mats[k][j][q], 0, [q \in 1..Len(r.mats[k][i]) |-> q]), 25)]]]} :
                             LET G(i, j) == FoldLeft(LAMBDA a, k: RMul(P[k][r.terms[i][k]][r.terms[j][k]], a), <<1, 1>>, [k \in 1..Len(r.mats) |-> k])
                                 J == 1..Len(r.terms)
                                 E(i, j) == IF i = j THEN <<1, 1>> ELSE <<0, 1>>
                             IN /\ Len(r.v) = Len(r.terms)
                                /\ \A i \in J : \A j \in J : \A g \in {G(i, j)} : Same(r.v[i][j], g) /\ (r.flag => g = E(i, j))
                                /\ (\A k \in 1..Len(r.mats) : \A i \in 1..Len(r.mats[k]) : \A j \in 1..Len(r.mats[k]) : P[k][i][j] = E(i, j)) => r.flag
      [] r.op = "spans" -> /\ \A i \in 1..Len(r.gram) : \A j \in 1..Len(r.gram) : r.gram[i][j] = (IF i = j THEN <<1, 1>> ELSE <<0, 1>>)
                           /\ Len(r.gram) = Len(r.terms) /\ r.flag
                           /\ Rows([r EXCEPT !.v = r.v], LAMBDA o, x: F!Ev(r, o, [k \in 1..Len(r.fams) |-> 0], x))
      [] r.op = "cond" -> Rows(r, LAMBDA o, x: F!CondF(r, o, RangeOf(r.dims), x))
      [] r.op = "vcond" -> PerOut(r, LAMBDA o: F!VCond(r, o, RangeOf(r.dims)))
      [] r.op = "lin" -> Rows(r, LAMBDA o, x: RAdd(RMul(RInt(r.a), F!Ev(r, o, r.ns, x)), RMul(RInt(r.b), F!Ev([fams |-> r.fams, terms |-> r.terms, coef |-> r.coef2], o, r.ns, x))))
      [] r.op = "prod" -> Rows(r, LAMBDA o, x: RMul(F!Ev(r, o, r.ns, x), F!Ev(r.g, o, r.ns, x)))
      [] r.op = "same" -> r.n = Len(r.a) /\ Len(r.a) = Len(r.b) /\ \A i \in 1..Len(r.a) : AbsI(r.a[i] - r.b[i]) <= 2
      [] r.op = "eq" -> r.verdict = r.want
      [] r.op = "unit" -> \A i \in 1..Len(r.v) : \A j \in 1..Len(r.v) : r.v[i][j] = (IF i = j THEN <<1, 1>> ELSE <<0, 1>>)
      [] r.op = "path" -> Len(r.cols) > 0 /\ \A c \in 1..Len(r.cols) : RangeOf(r.cols[c]) = {i \in 1..Len(r.terms) : r.deg[i] <= r.levels[c]}
Bad1(r) == IF Ok(r) THEN {} ELSE {r.op}
Bad(r) == IF r.err # "" THEN {"exception"} ELSE Bad1(r)
Chk == Report(vLine, Bad(Recs[vLine]))
=============================================================================
