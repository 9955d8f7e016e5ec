------------------------------ MODULE C16Trace ------------------------------
EXTENDS VBase, TraceBase
M == INSTANCE MagicSpec WITH NR <- 1, NC <- 1, EMAX <- 1, F0 <- <<>>, st <- <<>>
Bad1(r) ==
    CASE r.op = "indices" ->
            IF Len(r.i) # r.n \/ Len(r.j) # r.n THEN {"number"}
            ELSE M!Follow(M!Start(r.F), r.option, r.i, r.j, 1)
      [] r.op = "points" ->      \* r.F: evaluations at the candidate points; r.J: column order when prescribed
            LET G == IF r.option = "left" THEN [a \in 1..Len(r.F) |-> Sel(r.F[a], r.J)] ELSE r.F
                det == AbsI(M!Det(M!SubM(r.F, r.i, Iota(Len(r.i)))))
            IN IF Len(r.i) # Len(r.F[1]) THEN {"number"}
               ELSE IF ~(RangeOf(r.i) \subseteq 1..Len(r.F)) THEN {"range"}
               ELSE (IF r.option = "left" THEN M!Follow(M!Start(G), "left", r.i, Iota(Len(r.i)), 1)
                     ELSE IF \E J \in Permutations(1..Len(r.i)) :
                               M!Follow(M!Start(G), "left_right", r.i, [k \in 1..Len(r.i) |-> J[k]], 1) = {} THEN {} ELSE {"notgreedy"})
                    \cup (IF r.points = Sel(r.x, r.i) THEN {} ELSE {"points"})
                    \cup (IF det = 0 THEN {"singular"}
                          ELSE IF AbsI(r.leb * det - 1000 * M!LebMax(r.F, r.i)) <= det THEN {} ELSE {"lebesgue"})
      [] r.op = "interp" ->      \* values of the interpolant of a function of the space
            IF r.val = r.want THEN {} ELSE {"interpolation"}
      [] r.op = "unisolvent" ->  \* points chosen by the library itself in the support
            (IF r.card = Len(r.want) THEN {} ELSE {"number"})
            \cup (IF r.val = r.want THEN {} ELSE {"interpolation"})
Bad(r) == IF r.err # "" THEN {"exception"} ELSE Bad1(r)
Chk == Report(vLine, Bad(Recs[vLine]))
=============================================================================
