----------------------------- MODULE TensorSpec -----------------------------
(* Abstract multi-dimensional arrays: T = [shape |-> <<n1..nd>>, data |-> a  *)
(* sequence of Size(shape) integers in Fortran order].  Order 0 arrays have  *)
(* shape <<>> and one entry.  Every algebraic operation of the library is    *)
(* given here by its textbook definition on entries.  Modes are 1-based.     *)
EXTENDS VBase

Ten(shape, f(_)) ==                                  \* entries given on multi-indices
    [shape |-> shape, data |-> TLCEval([p \in 1..Size(shape) |-> f(UnIdx(shape, p))])]
At(T, ix) == T.data[Flat(T.shape, ix)]
Order(T) == Len(T.shape)
IsTensor(T) == Len(T.data) = Size(T.shape)
Scalar(x) == [shape |-> <<>>, data |-> <<x>>]
Vec(s) == [shape |-> <<Len(s)>>, data |-> s]

MapT(T, f(_)) == [T EXCEPT !.data = TLCEval([p \in 1..Len(T.data) |-> f(T.data[p])])]
ZipT(A, B, f(_, _)) == [A EXCEPT !.data = TLCEval([p \in 1..Len(A.data) |-> f(A.data[p], B.data[p])])]
Add(A, B) == ZipT(A, B, LAMBDA x, y: x + y)
Sub(A, B) == ZipT(A, B, LAMBDA x, y: x - y)
Had(A, B) == ZipT(A, B, LAMBDA x, y: x * y)
Scale(c, A) == MapT(A, LAMBDA x: c * x)
AddC(c, A) == MapT(A, LAMBDA x: c + x)
PowT(A, n) == MapT(A, LAMBDA x: PowI(x, n))

(* modes permuted: mode k of the result is mode p[k] of the argument (numpy) *)
Transpose(A, p) ==
    Ten(Sel(A.shape, p), LAMBDA ix: At(A, [m \in 1..Len(p) |-> ix[PosIn(p, m)]]))
Reshape(A, shape) == [shape |-> shape, data |-> A.data]
Drop(A, modes) ==                                    \* remove size-one modes
    [shape |-> Sel(A.shape, OtherPos(Order(A), modes)), data |-> A.data]
SqueezeAll(A) == Drop(A, SelectSeq(Iota(Order(A)), LAMBDA k: A.shape[k] = 1))
SubT(A, sel) ==                                      \* sel[k]: sequence of 1-based indices along mode k
    Ten([k \in 1..Order(A) |-> Len(sel[k])], LAMBDA ix: At(A, [k \in 1..Order(A) |-> sel[k][ix[k]]]))

(* block placement along the given modes (all of them: direct sum)           *)
Cat(A, B, modes) ==
    LET d == Order(A)
        sh == [k \in 1..d |-> IF k \in RangeOf(modes) THEN A.shape[k] + B.shape[k] ELSE A.shape[k]]
    IN Ten(sh, LAMBDA ix:
          IF \A k \in RangeOf(modes) : ix[k] <= A.shape[k] THEN At(A, ix)
          ELSE IF \A k \in RangeOf(modes) : ix[k] > A.shape[k]
               THEN At(B, [k \in 1..d |-> IF k \in RangeOf(modes) THEN ix[k] - A.shape[k] ELSE ix[k]])
               ELSE 0)
PadOnes(A, d) == [A EXCEPT !.shape = [k \in 1..d |-> IF k <= Len(A.shape) THEN A.shape[k] ELSE 1]]
Kron(A0, B0) ==
    LET d == MaxI(Order(A0), Order(B0))
        A == PadOnes(A0, d)
        B == PadOnes(B0, d)
        sh == [k \in 1..d |-> A.shape[k] * B.shape[k]]
    IN Ten(sh, LAMBDA ix:
          At(A, [k \in 1..d |-> ((ix[k] - 1) \div B.shape[k]) + 1])
        * At(B, [k \in 1..d |-> ((ix[k] - 1) % B.shape[k]) + 1]))

(* sum over the listed modes, kept with size one *)
SumKeep(A, modes) ==
    LET S == RangeOf(modes)
        red == Sel(A.shape, modes)
        sh == [k \in 1..Order(A) |-> IF k \in S THEN 1 ELSE A.shape[k]]
    IN Ten(sh, LAMBDA ix:
         SumTo(Size(red), LAMBDA q:
            LET jx == UnIdx(red, q) IN
            At(A, [k \in 1..Order(A) |-> IF k \in S THEN jx[PosIn(modes, k)] ELSE ix[k]])))
SumDrop(A, modes) == Drop(SumKeep(A, modes), modes)

(* contraction of modes p of A with modes q of B; the remaining modes of A   *)
(* come first, then those of B                                               *)
Contract(A, B, p, q) ==
    LET ra == OtherPos(Order(A), p)
        rb == OtherPos(Order(B), q)
        csh == Sel(A.shape, p)
    IN Ten(Sel(A.shape, ra) \o Sel(B.shape, rb), LAMBDA ix:
         SumTo(Size(csh), LAMBDA c:
            LET cx == UnIdx(csh, c) IN
              At(A, [k \in 1..Order(A) |-> IF k \in RangeOf(p) THEN cx[PosIn(p, k)] ELSE ix[PosIn(ra, k)]])
            * At(B, [k \in 1..Order(B) |-> IF k \in RangeOf(q) THEN cx[PosIn(q, k)]
                                                            ELSE ix[Len(ra) + PosIn(rb, k)]])))
Outer(A, B) == Contract(A, B, <<>>, <<>>)

(* product with a matrix M (order-two array, rows x n_k) along mode k *)
ModeProd(A, M, k) ==
    Ten(SetPos(A.shape, k, M.shape[1]), LAMBDA ix:
        SumTo(A.shape[k], LAMBDA j: M.data[(j - 1) * M.shape[1] + ix[k]] * At(A, SetPos(ix, k, j))))
RECURSIVE ModeProds(_, _, _)
ModeProds(A, Ms, modes) ==
    IF modes = <<>> THEN A
    ELSE ModeProds(ModeProd(A, Ms[1], modes[1]), Tail(Ms), Tail(modes))
RowMat(v) == [shape |-> <<1, Len(v)>>, data |-> v]
DiagMat(v) == Ten(<<Len(v), Len(v)>>, LAMBDA ix: IF ix[1] = ix[2] THEN v[ix[1]] ELSE 0)
Eye(n) == DiagMat([k \in 1..n |-> 1])
VecProds(A, vs, modes) ==
    Drop(ModeProds(A, [k \in 1..Len(vs) |-> RowMat(vs[k])], modes), modes)

(* diagonal of modes `modes` (equal sizes): the result's diagonal mode sits  *)
(* where the first (smallest) of them was, the others keep their order       *)
DiagModes(A, modes0) ==
    LET modes == Sorted(RangeOf(modes0))
        keep == OtherPos(Order(A), Tail(modes))
    IN Ten(Sel(A.shape, keep), LAMBDA ix:
          At(A, [k \in 1..Order(A) |-> IF k \in RangeOf(modes) THEN ix[PosIn(keep, modes[1])]
                                       ELSE ix[PosIn(keep, k)]]))
(* rows of `pts` list 1-based indices along `modes` (any order): the new     *)
(* mode enumerating the points sits at the position of the smallest mode     *)
EvalModes(A, pts, modes) ==
    LET lo == Sorted(RangeOf(modes))[1]
        keep == OtherPos(Order(A), SelectSeq(modes, LAMBDA m: m # lo))
        sh == [k \in 1..Len(keep) |-> IF keep[k] = lo THEN Len(pts) ELSE A.shape[keep[k]]]
    IN Ten(sh, LAMBDA ix:
          At(A, [k \in 1..Order(A) |->
                  IF k \in RangeOf(modes) THEN pts[ix[PosIn(keep, lo)]][PosIn(modes, k)]
                  ELSE ix[PosIn(keep, k)]]))
EvalAll(A, pts) == Vec([n \in 1..Len(pts) |-> At(A, pts[n])])

Matricize(A, rows, cols) == Reshape(Transpose(A, rows \o cols), <<Size(Sel(A.shape, rows)), Size(Sel(A.shape, cols))>>)
Dot(A, B) == SumTo(Len(A.data), LAMBDA p: A.data[p] * B.data[p])
Norm2(A) == Dot(A, A)
MatMul(A, B) == Contract(A, B, <<2>>, <<1>>)
MatT(A) == Transpose(A, <<2, 1>>)
IsEye(A) == A = Eye(A.shape[1])
NonZeros(A) == Cardinality({p \in 1..Len(A.data) : A.data[p] # 0})
(* general two-operand multilinear contraction given by index labels         *)
Ein(A, la, B, lb, lo) ==
    LET SizeOf(l) == IF l \in RangeOf(la) THEN A.shape[PosIn(la, l)] ELSE B.shape[PosIn(lb, l)]
        summed == Sorted((RangeOf(la) \cup RangeOf(lb)) \ RangeOf(lo))
        ssh == [k \in 1..Len(summed) |-> SizeOf(summed[k])]
    IN Ten([k \in 1..Len(lo) |-> SizeOf(lo[k])], LAMBDA ix:
         SumTo(Size(ssh), LAMBDA q:
           LET jx == UnIdx(ssh, q)
               V(l) == IF l \in RangeOf(lo) THEN ix[PosIn(lo, l)] ELSE jx[PosIn(summed, l)]
           IN At(A, [k \in 1..Len(la) |-> V(la[k])]) * At(B, [k \in 1..Len(lb) |-> V(lb[k])])))
(* contraction of p/q with simultaneous diagonal of pd/qd: one single        *)
(* diagonal (many = FALSE) or one diagonal per pair (many = TRUE)            *)
EinDiag(A, B, p, q, pd, qd, many) ==
    LET na == Order(A)
        nb == Order(B)
        la == [k \in 1..na |-> IF ~many /\ pd # <<>> /\ k \in RangeOf(pd) THEN pd[1] ELSE k]
        lb == [k \in 1..nb |->
                 IF k \in RangeOf(q) THEN la[p[PosIn(q, k)]]
                 ELSE IF k \in RangeOf(qd) THEN (IF many THEN pd[PosIn(qd, k)] ELSE pd[1])
                 ELSE na + k]
        all == la \o lb
        con == {la[p[k]] : k \in 1..Len(p)}
        first == SelectSeq(Iota(na + nb), LAMBDA k: all[k] \notin con /\ \A j \in 1..(k - 1) : all[j] # all[k])
    IN Ein(A, la, B, lb, Sel(all, first))
DiagTensor(v, d) == Ten([k \in 1..d |-> Len(v)], LAMBDA ix:
                        IF \A k \in 1..d : ix[k] = ix[1] THEN v[ix[1]] ELSE 0)
=============================================================================
