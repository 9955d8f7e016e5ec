------------------------------- MODULE LsSpec -------------------------------
(* Linear least squares in exact rational arithmetic, and the life of a      *)
(* solver object.  A design is a sequence of integer rows, sw the square     *)
(* roots of the weights, y the observations.                                 *)
(*                                                                           *)
(* State machine: a solver is reconfigured at will between two solves (other *)
(* data, other estimator, other candidate supports, ...); the answer to a    *)
(* solve is a function of the current configuration only.  The machine also  *)
(* carries the incremental (leave-one-out) formulas used in practice, checked*)
(* against the definition by refitting.                                      *)
EXTENDS VBase, Json
CONSTANTS NROW, NCOL, VMAX
VARIABLES dat, cfg, hist

Cols(A) == IF A = <<>> THEN 0 ELSE Len(A[1])

RECURSIVE Det(_)
Det(m) ==
    IF Len(m) = 0 THEN 1
    ELSE IF Len(m) = 1 THEN m[1][1]
    ELSE IF Len(m) = 2 THEN m[1][1] * m[2][2] - m[1][2] * m[2][1]
    ELSE LET Minor(c) == [i \in 1..(Len(m) - 1) |-> [j \in 1..(Len(m) - 1) |-> m[i + 1][IF j < c THEN j ELSE j + 1]]]
         IN FoldLeft(LAMBDA acc, c: acc + (IF c % 2 = 1 THEN 1 ELSE -1) * m[1][c] * Det(Minor(c)), 0, Iota(Len(m)))
Drop(m, k) == [i \in 1..(Len(m) - 1) |-> [j \in 1..(Len(m) - 1) |-> m[IF i < k THEN i ELSE i + 1][IF j < k THEN j ELSE j + 1]]]

(* ------------------------------------------------- problem on rows S, columns q *)
Weighted(A, sw) == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> sw[i] * A[i][j]]]
WeightedY(y, sw) == [i \in 1..Len(y) |-> sw[i] * y[i]]
Rows(A, S) == LET s == Sorted(S) IN [k \in 1..Len(s) |-> A[s[k]]]
Keep(A, q) == [i \in 1..Len(A) |-> Sel(A[i], q)]
Gram(A) == TLCEval([j \in 1..Cols(A) |-> [k \in 1..Cols(A) |-> SumTo(Len(A), LAMBDA i: A[i][j] * A[i][k])]])
Rhs(A, y) == TLCEval([j \in 1..Cols(A) |-> SumTo(Len(A), LAMBDA i: A[i][j] * y[i])])
(* g integer matrix, b integer vector: the solution of g x = b, by Cramer *)
Cramer(g, b) ==
    LET d == Det(g)
    IN TLCEval([j \in 1..Len(b) |-> Rat(Det([i \in 1..Len(b) |-> [g[i] EXCEPT ![j] = b[i]]]), d)])
FullRank(A) == Len(A) >= Cols(A) /\ Det(Gram(A)) # 0
Ols(A, y) == Cramer(Gram(A), Rhs(A, y))
Predict(row, x) == RSum([j \in 1..Len(row) |-> RMul(RInt(row[j]), x[j])])
Residual(A, y, x, i) == RSub(RInt(y[i]), Predict(A[i], x))
Sq(a) == RMul(a, a)

(* ---------------------------------------------------------- estimated errors *)
(* the residual of sample i when the samples of S (containing i) are left out *)
OutResidual(A, y, S, i) ==
    LET I == (1..Len(A)) \ S
    IN Residual(A, y, Ols(Rows(A, I), Rows(y, I)), i)
LeaveOut(A, y) == TLCEval([i \in 1..Len(A) |-> OutResidual(A, y, {i}, i)])
OutFullRank(A, S) == FullRank(Rows(A, (1..Len(A)) \ S))
MeanSq(v) == RMul(RSum([i \in 1..Len(v) |-> Sq(v[i])]), <<1, Len(v)>>)
SecondMoment(y) == Rat(SumTo(Len(y), LAMBDA i: y[i] * y[i]), Len(y))
(* N/(N-P) (1 + tr((A'A)^-1 H)), H the Gram matrix of the basis *)
Identity(p) == [i \in 1..p |-> [j \in 1..p |-> IF i = j THEN 1 ELSE 0]]
Correction(A, H) ==
    LET n == Len(A)  p == Cols(A)  g == Gram(A)
        tr == RSum([j \in 1..p |-> Cramer(g, [i \in 1..p |-> H[i][j]])[j]])
    IN IF n = p THEN <<1, 1>> ELSE RMul(Rat(n, n - p), RAdd(<<1, 1>>, tr))
(* squared relative error; <<1, 0>> is infinity *)
Inf == <<1, 0>>
LooError(A, y, corrected, H) ==
    IF Len(A) - 1 < Cols(A) THEN Inf
    ELSE LET e == RDiv(MeanSq(LeaveOut(A, y)), SecondMoment(y))
         IN IF corrected THEN RMul(e, Correction(A, H)) ELSE e
ErrLe(a, b) == IF b = Inf THEN TRUE ELSE IF a = Inf THEN FALSE ELSE RLe(a, b)

(* ----------------------------------------------------- candidate supports *)
(* a path is a sequence of candidate supports (sequences of booleans): empty
   ones and repetitions are skipped, and those with more functions than samples *)
Support(c) == SelectSeq(Iota(Len(c)), LAMBDA j: c[j])
Candidates(path, n) ==
    LET ok == SelectSeq(Iota(Len(path)), LAMBDA k: Support(path[k]) # <<>> /\ (\A l \in 1..(k - 1) : path[l] # path[k]) /\ Len(Support(path[k])) <= n)
    IN [k \in 1..Len(ok) |-> path[ok[k]]]
Nested(p) == [k \in 1..p |-> [j \in 1..p |-> j <= k]]
Embed(x, q, p) == [j \in 1..p |-> IF j \in RangeOf(q) THEN x[PosIn(q, j)] ELSE <<0, 1>>]
(* early stopping of a path of errors: beyond a candidate (from the third on)
   more than twice as bad (in squared errors: four times) as the previous one, all are discarded *)
Stopped(errs, four) ==
    LET stops == {k \in 3..Len(errs) : \/ errs[k - 1] # Inf /\ errs[k] = Inf
                                       \/ errs[k - 1] # Inf /\ errs[k] # Inf /\ RLt(RMul(four, errs[k - 1]), errs[k])}
        s == IF stops = {} THEN Len(errs) ELSE CHOOSE k \in stops : \A l \in stops : k <= l
    IN [k \in 1..Len(errs) |-> IF k <= s THEN errs[k] ELSE Inf]
Argmins(errs) == {k \in 1..Len(errs) : \A l \in 1..Len(errs) : ErrLe(errs[k], errs[l])}

(* greedy step of orthogonal matching pursuit from support q *)
MatchScore(A, y, q, j) ==
    LET x == Ols(Keep(A, q), y)
        AQ == Keep(A, q)
        c == RSum([i \in 1..Len(A) |-> RMul(RInt(A[i][j]), IF q = <<>> THEN RInt(y[i]) ELSE Residual(AQ, y, x, i))])
    IN RMul(Sq(c), <<1, SumTo(Len(A), LAMBDA i: A[i][j] * A[i][j])>>)

(* ----------------------------------------------------------- lasso and ridge *)
Ridge(A, y, al) ==     \* al = <<p, q>>: (A'A + p/q I) x = A'y
    LET g == Gram(A)  b == Rhs(A, y)
    IN Cramer([i \in 1..Len(b) |-> [j \in 1..Len(b) |-> al[2] * g[i][j] + (IF i = j THEN al[1] ELSE 0)]], [i \in 1..Len(b) |-> al[2] * b[i]])
LassoOptimal(A, y, al, x) ==    \* 1/(2N) |y - A x|^2 + al |x|_1
    \A j \in 1..Cols(A) :
        LET c == RMul(RSum([i \in 1..Len(A) |-> RMul(RInt(A[i][j]), Residual(A, y, x, i))]), <<1, Len(A)>>)
        IN IF x[j][1] > 0 THEN c = al ELSE IF x[j][1] < 0 THEN c = RNeg(al) ELSE RLe(c, al) /\ RLe(RNeg(al), c)

(* ------------------------------------------------------------ state machine *)
Modes == {"ols", "adapt", "l0", "l1", "l2"}
Estimators == {"none", "leave_out", "k_fold", "residuals"}
Sources == {"matrix", "basis", "stack"}     \* stack: one design matrix per output, shared coefficients
SimBlank == [data |-> 0]
SimInit == cfg = SimBlank /\ hist = <<>> /\ dat = <<>>
First == [data |-> 1, mode |-> "ols", est |-> "none", src |-> "matrix", corr |-> TRUE, wgt |-> FALSE, outs |-> 1, lin |-> "qr",
          stop |-> FALSE, test |-> FALSE, gram |-> FALSE, sel |-> TRUE, blocks |-> FALSE]
Pick(f) == CASE f = "data" -> RandomElement(1..4) [] f = "mode" -> RandomElement(Modes) [] f = "est" -> RandomElement(Estimators)
             [] f = "src" -> RandomElement(Sources) [] f = "outs" -> RandomElement(1..2) [] f = "lin" -> RandomElement({"qr", "solve"})
             [] OTHER -> RandomElement(BOOLEAN)
SimNext == /\ Len(hist) < NROW
           /\ cfg' = TLCEval(IF cfg = SimBlank \/ RandomElement(1..4) = 1 THEN [f \in DOMAIN First |-> Pick(f)]
                             ELSE LET f == RandomElement(DOMAIN First) IN [cfg EXCEPT ![f] = Pick(f)])
           /\ hist' = Append(hist, cfg')
           /\ dat' = dat
EmitHist == Len(hist) # NROW \/ PrintT(ToJson(hist))

(* exhaustive model: all small designs; rows are added one at a time, the Gram
   matrix and right-hand side being updated, as an incremental solver would *)
Vals == (0 - VMAX)..VMAX
InitEx == dat = [A |-> <<>>, y |-> <<>>, g |-> [j \in 1..NCOL |-> [k \in 1..NCOL |-> 0]], b |-> [j \in 1..NCOL |-> 0]] /\ cfg = SimBlank /\ hist = <<>>
NextEx == /\ Len(dat.A) < NROW
          /\ \E row \in [1..NCOL -> Vals], z \in Vals :
               dat' = [A |-> Append(dat.A, row), y |-> Append(dat.y, z),
                       g |-> [j \in 1..NCOL |-> [k \in 1..NCOL |-> dat.g[j][k] + row[j] * row[k]]], b |-> [j \in 1..NCOL |-> dat.b[j] + row[j] * z]]
          /\ UNCHANGED <<cfg, hist>>
Risk(A, y, x) == RSum([i \in 1..Len(A) |-> Sq(Residual(A, y, x, i))])
Incremental == dat.A # <<>> => dat.g = Gram(dat.A) /\ dat.b = Rhs(dat.A, dat.y)
Minimiser == (dat.A # <<>> /\ FullRank(dat.A)) =>
    LET x == Ols(dat.A, dat.y)
    IN \A d \in [1..NCOL -> {-1, 0, 1}] : RLe(Risk(dat.A, dat.y, x), Risk(dat.A, dat.y, [j \in 1..NCOL |-> RAdd(x[j], <<d[j], 2>>)]))
(* Bartlett: the left-out residual is r_i / (1 - h_i) *)
Shortcut == (dat.A # <<>> /\ FullRank(dat.A)) =>
    LET x == Ols(dat.A, dat.y)
    IN \A i \in 1..Len(dat.A) : OutFullRank(dat.A, {i}) =>
        LET h == Predict(dat.A[i], Cramer(Gram(dat.A), dat.A[i]))
        IN h # <<1, 1>> /\ OutResidual(dat.A, dat.y, {i}, i) = RDiv(Residual(dat.A, dat.y, x, i), RSub(<<1, 1>>, h))
(* the estimated error is never below the training error *)
Pessimistic == (dat.A # <<>> /\ FullRank(dat.A) /\ \A i \in 1..Len(dat.A) : OutFullRank(dat.A, {i})) =>
    RLe(MeanSq([i \in 1..Len(dat.A) |-> Residual(dat.A, dat.y, Ols(dat.A, dat.y), i)]), MeanSq(LeaveOut(dat.A, dat.y)))
(* lasso and ridge at penalty 0 are least squares *)
Penalty == (dat.A # <<>> /\ FullRank(dat.A)) =>
    LET x == Ols(dat.A, dat.y)
    IN Ridge(dat.A, dat.y, <<0, 1>>) = x /\ LassoOptimal(dat.A, dat.y, <<0, 1>>, x)
=============================================================================
