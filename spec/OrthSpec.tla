------------------------------ MODULE OrthSpec ------------------------------
(* Matricisations of an array, the Gram matrices and power sums of squared   *)
(* singular values they prescribe, and (model checking) the recursion that   *)
(* computes the Gram matrices from the root when the frames are orthonormal. *)
EXTENDS FormatSpec

Mat(A, dims) == Matricize(A, dims, OtherPos(Order(A), dims))     \* rows: the listed modes
GramOf(M) == MatMul(M, MatT(M))
TraceM(G) == SumTo(G.shape[1], LAMBDA i: At(G, <<i, i>>))
(* traces of G, G^2, G^3: the sums of the 2nd, 4th, 6th powers of the        *)
(* singular values of M                                                      *)
PowerSums(M) ==
    LET G == IF M.shape[1] <= M.shape[2] THEN GramOf(M) ELSE GramOf(MatT(M))
        G2 == MatMul(G, G)
        TrProd(X, Y) == SumTo(X.shape[1], LAMBDA i: SumTo(X.shape[1], LAMBDA j: At(X, <<i, j>>) * At(Y, <<j, i>>)))
    IN <<TraceM(G), TraceM(G2), TrProd(G2, G)>>
NearEye(G, scale, tol) ==
    \A i \in 1..G.shape[1], j \in 1..G.shape[2] :
        AbsI(At(G, <<i, j>>) - (IF i = j THEN scale ELSE 0)) <= tol

(* ------------------------------------------------------------- model      *)
(* Tree {1,{2,3}} with signed selections as orthonormal frames, any root     *)
(* core: the Gram matrices obtained by descending from the root are those of *)
(* the functions w_k, hence give the matricisations' singular values.        *)
CONSTANTS E
VARIABLES leaf1, inner, root
M2(a, b, c, d) == [shape |-> <<2, 2>>, data |-> <<a, b, c, d>>]
Frames2 == {M2(s, 0, 0, t) : s, t \in {-1, 1}} \cup {M2(0, s, t, 0) : s, t \in {-1, 1}}
Unit4(p, s) == [k \in 1..4 |-> IF k = p THEN s ELSE 0]
Inners == {[shape |-> <<2, 2, 2>>, data |-> Unit4(p, s) \o Unit4(q, t)] : <<p, q, s, t>> \in {z \in (1..4) \X (1..4) \X {-1, 1} \X {1} : z[1] < z[2]}}
ModelInit == leaf1 \in {M2(1, 0, 0, -1), M2(0, 1, 1, 0)} /\ inner \in Inners /\ root = M2(0, 0, 0, 0)
ModelNext == /\ root = M2(0, 0, 0, 0)                       \* one step: any root core
             /\ \E b, c, d \in (-E)..E : root' = M2(1, b, c, d)
             /\ UNCHANGED <<leaf1, inner>>
TT(l1, inn, rt) == [fmt |-> "tree", parent |-> <<0, 1, 1, 3, 3>>, ch |-> <<<<2, 3>>, <<>>, <<4, 5>>, <<>>, <<>>>>, dims |-> <<2, 4, 5>>,
                    act |-> <<TRUE, TRUE, TRUE, TRUE, TRUE>>, nodes |-> <<rt, l1, inn, Eye(2), M2(0, 1, -1, 0)>>]
GramLaw ==
    LET T == Denote(TT(leaf1, inner, root))
        g2 == GramOf(root)                                  \* of the functions multiplying node 2's
        g3 == GramOf(MatT(root))
        gin == ModeProd(inner, g3, 3)                        \* the inner core with its rank mode weighted
        g4 == Contract(inner, gin, <<2, 3>>, <<2, 3>>)
        g5 == Contract(inner, gin, <<1, 3>>, <<1, 3>>)
    IN /\ PowerSums(Mat(T, <<1>>)) = PowerSums(root)
       /\ PowerSums(Mat(T, <<2, 3>>)) = PowerSums(root)
       /\ PowerSums(Mat(T, <<2>>))[1] = TraceM(g4) /\ PowerSums(Mat(T, <<2>>))[2] = TraceM(MatMul(g4, g4))
       /\ PowerSums(Mat(T, <<3>>))[1] = TraceM(g5) /\ PowerSums(Mat(T, <<3>>))[2] = TraceM(MatMul(g5, g5))
       /\ Norm2(T) = Norm2(root)
=============================================================================
