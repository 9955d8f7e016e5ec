------------------------------ MODULE C12Trace ------------------------------
(* Set algebra of multi-indices (C12).                                       *)
EXTENDS MultiIndexSpec, TraceBase
IsSeqOf(s, S) == RangeOf(s) = S
SetBad(o, S) == (IF RangeOf(o) # S THEN {"set"} ELSE {}) \cup (IF ~NoDup(o) THEN {"duplicate"} ELSE {})
Bools(s) == [k \in 1..Len(s) |-> s[k]]
Bad1(r) ==
    LET I == r.x
        S == RangeOf(I)
        T == RangeOf(r.y)
        n == Len(I)
        YB(k) == IF Len(r.y) = 1 THEN r.y[1] ELSE r.y[k]
    IN CASE r.op = "union"     -> IF r.out # Uniq(I \o r.y) THEN SetBad(r.out, S \cup T) \cup {"order"} ELSE {}
         [] r.op = "diff"      -> IF r.out # SelectSeq(I, LAMBDA i: i \notin T) THEN SetBad(r.out, S \ T) \cup {"order"} ELSE {}
         [] r.op = "drop"      -> IF r.out # Sel(I, Sorted(1..n \ RangeOf(r.v))) THEN {"set"} ELSE {}
         [] r.op = "inter"     -> SetBad(r.out, S \cap T)
                                  \cup (IF Len(r.i) # Len(r.out) \/ Len(r.j) # Len(r.out) THEN {"positions"}
                                        ELSE IF \A k \in 1..Len(r.out) : r.i[k] \in 1..n /\ r.j[k] \in 1..Len(r.y)
                                                  /\ I[r.i[k]] = r.out[k] /\ r.y[r.j[k]] = r.out[k]
                                        THEN {} ELSE {"positions"})
         [] r.op = "margin"    -> SetBad(r.out, Margin(S))
         [] r.op = "reduced"   -> SetBad(r.out, Reduced(S))
         [] r.op = "maximal"   -> SetBad(r.out, Maximal(S))
         [] r.op = "downclosed" -> IF r.val # DownClosed(S, r.m) THEN {"verdict"} ELSE {}
         [] r.op = "envelope"  -> IF r.val # Envelope(I, r.u) THEN {"envelope"} ELSE {}
         [] r.op = "shift"     -> IF r.out # [k \in 1..n |-> AddV(I[k], r.v)] THEN {"shift"} ELSE {}
         [] r.op = "unshift"   -> IF r.out # [k \in 1..n |-> [m \in Dims(I[k]) |-> I[k][m] - r.v[m]]] THEN {"shift"} ELSE {}
         [] r.op = "rsub"      -> IF r.out # [k \in 1..n |-> [m \in Dims(I[k]) |-> r.v[m] - I[k][m]]] THEN {"shift"} ELSE {}
         [] r.op = "keepdims"  -> IF r.out # Uniq([k \in 1..n |-> Proj(I[k], r.v)])
                                  THEN SetBad(r.out, {Proj(i, r.v) : i \in S}) \cup {"order"} ELSE {}
         [] r.op = "remdims"   -> LET E == Uniq([k \in 1..n |-> Proj(I[k], Sorted(Dims(I[k]) \ RangeOf(r.v)))])
                                  IN IF r.out # E THEN SetBad(r.out, RangeOf(E)) \cup {"order"} ELSE {}
         [] r.op = "keep"      -> IF r.out # Sel(I, r.v) THEN {"set"} ELSE {}
         [] r.op = "product"   -> IF r.out # ProductSeq(I, r.y) THEN SetBad(r.out, {i \o j : <<i, j>> \in S \X T}) \cup {"order"} ELSE {}
         [] r.op = "eq"        -> IF r.val # [k \in 1..n |-> I[k] = YB(k)] THEN {"verdict"} ELSE {}
         [] r.op = "le"        -> IF r.val # [k \in 1..n |-> Leq(I[k], YB(k))] THEN {"verdict"} ELSE {}
         [] r.op = "card"      -> IF r.val # n THEN {"cardinal"} ELSE {}
         [] r.op = "ndim"      -> IF n > 0 /\ r.val # Len(I[1]) THEN {"dimension"} ELSE {}
         [] r.op = "sort"      -> (IF ~(Len(r.out) = n /\ RangeOf(r.out) = S) THEN {"set"} ELSE {})
                                  \cup (IF \A k \in 1..(Len(r.out) - 1) :
                                             IF r.desc THEN LexLe(r.out[k + 1], r.out[k], r.v) ELSE LexLe(r.out[k], r.out[k + 1], r.v)
                                        THEN {} ELSE {"order"})
         [] r.op = "sortnorm"  -> (IF ~(Len(r.out) = n /\ RangeOf(r.out) = S) THEN {"set"} ELSE {})
                                  \cup (IF \A k \in 1..(Len(r.out) - 1) :
                                             LET a == WNormP(r.out[k], r.p, r.w)
                                                 b == WNormP(r.out[k + 1], r.p, r.w)
                                             IN IF r.desc THEN b <= a ELSE a <= b
                                        THEN {} ELSE {"order"})
         [] r.op = "norm"      -> IF r.val # [k \in 1..Len(r.v) |-> WNormP(I[r.v[k]], r.p, r.w)] THEN {"norm"} ELSE {}
         [] r.op = "run"       -> \* a behaviour of the state machine: every pool entry, at the end
                                  LET RECURSIVE Go(_, _)
                                      Go(pool, q) ==
                                        IF q > Len(r.ops) THEN {}
                                        ELSE LET E == Step(pool, r.ops[q])
                                                 O == r.out[q]
                                             IN SetBad(O, E)
                                                \cup Go(Append(pool, O), q + 1)
                                  IN Go(<<r.x>>, 1) \cup (IF r.final # <<r.x>> \o r.out THEN {"altered"} ELSE {})
Bad(r) == IF r.err # "" THEN {"exception"} ELSE Bad1(r)
Chk == Report(vLine, Bad(Recs[vLine]))
=============================================================================
