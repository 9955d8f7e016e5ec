------------------------------ MODULE MagicSpec ------------------------------
(* Greedy selection of magic indices (C16).  A matrix is a sequence of rows  *)
(* of integers.  State: the selected rows and columns and the residual of    *)
(* the current cross interpolation, kept free of fractions (Bareiss): after  *)
(* k steps R[i][j] is the minor on rows I + i and columns J + j, i.e. the    *)
(* interpolation residual times the determinant `piv` of the selected        *)
(* square submatrix.                                                         *)
EXTENDS VBase

NRows(F) == Len(F)
NCols(F) == Len(F[1])
Start(F) == [R |-> F, piv |-> 1, I |-> <<>>, J |-> <<>>]
MaxAbs(R, cols) == Max({AbsI(R[i][j]) : i \in 1..NRows(R), j \in cols})
(* one step with pivot (p, q) *)
StepM(st, p, q) ==
    [R |-> [i \in 1..NRows(st.R) |-> [j \in 1..NCols(st.R) |->
               (st.R[i][j] * st.R[p][q] - st.R[i][q] * st.R[p][j]) \div st.piv]],
     piv |-> st.R[p][q], I |-> Append(st.I, p), J |-> Append(st.J, q)]
(* the choices allowed by the definition *)
Greedy(st, option, p, q) ==
    CASE option = "left_right" -> AbsI(st.R[p][q]) = MaxAbs(st.R, 1..NCols(st.R))
      [] option = "left"  -> /\ q = Len(st.J) + 1
                             /\ AbsI(st.R[p][q]) = Max({AbsI(st.R[i][q]) : i \in 1..NRows(st.R)})
      [] option = "right" -> /\ p = Len(st.I) + 1
                             /\ AbsI(st.R[p][q]) = Max({AbsI(st.R[p][j]) : j \in 1..NCols(st.R)})
RECURSIVE Follow(_, _, _, _, _)
(* verdict on a sequence of choices: set of violated clauses *)
Follow(st, option, I, J, k) ==
    IF k > Len(I) THEN {}
    ELSE IF ~(I[k] \in 1..NRows(st.R) /\ J[k] \in 1..NCols(st.R)) THEN {"range"}
    ELSE (IF Greedy(st, option, I[k], J[k]) THEN {} ELSE {"notgreedy"})
         \cup (IF I[k] \in RangeOf(st.I) \/ J[k] \in RangeOf(st.J) THEN {"repeated"} ELSE {})
         \cup (IF st.R[I[k]][J[k]] = 0 THEN {"singular"}
               ELSE Follow(StepM(st, I[k], J[k]), option, I, J, k + 1))
(* can the greedy algorithm make n steps, whatever the ties?                 *)
RECURSIVE CanRun(_, _, _)
CanRun(st, option, n) ==
    IF n = 0 THEN TRUE
    ELSE LET C == {<<p, q>> \in (1..NRows(st.R)) \X (1..NCols(st.R)) : Greedy(st, option, p, q)}
         IN C # {} /\ \A c \in C : st.R[c[1]][c[2]] # 0 /\ CanRun(StepM(st, c[1], c[2]), option, n - 1)

RECURSIVE Det(_)
Det(M) == IF Len(M) = 0 THEN 1
          ELSE IF Len(M) = 1 THEN M[1][1]
          ELSE SumTo(Len(M), LAMBDA c:
                 (IF c % 2 = 1 THEN 1 ELSE -1) * M[1][c] *
                 (IF M[1][c] = 0 THEN 0
                  ELSE Det([i \in 1..(Len(M) - 1) |-> [j \in 1..(Len(M) - 1) |-> M[i + 1][IF j < c THEN j ELSE j + 1]]])))
SubM(F, I, J) == [a \in 1..Len(I) |-> [b \in 1..Len(J) |-> F[I[a]][J[b]]]]
(* sum of the absolute values of the cardinal functions at row i, times |det| *)
LebRow(F, I, i) == SumTo(Len(I), LAMBDA m: AbsI(Det(SubM(F, [I EXCEPT ![m] = i], Iota(Len(I))))))
LebMax(F, I) == Max({LebRow(F, I, i) : i \in 1..NRows(F)})

(* -------------------------------------------------------- model checking *)
CONSTANTS NR, NC, EMAX
VARIABLES F0, st
ModelInit == F0 \in [1..NR -> [1..NC -> (-EMAX)..EMAX]] /\ st = Start(F0)
ModelNext == /\ Len(st.I) < MinI(NR, NC)
             /\ \E p \in 1..NR, q \in 1..NC :
                   st.R[p][q] # 0 /\ Greedy(st, "left_right", p, q) /\ st' = StepM(st, p, q)
             /\ UNCHANGED F0
(* the algorithm stops only at the rank; pivots are determinants; crosses are interpolated *)
Laws == /\ st.piv = Det(SubM(F0, st.I, st.J))
        /\ NoDup(st.I) /\ NoDup(st.J)
        /\ st.piv # 0
        /\ \A i \in 1..NR, j \in 1..NC :
              /\ st.R[i][j] = Det(SubM(F0, Append(st.I, i), Append(st.J, j)))
              /\ (i \in RangeOf(st.I) \/ j \in RangeOf(st.J)) => st.R[i][j] = 0
=============================================================================
