------------------------------ MODULE C24Trace ------------------------------
EXTENDS TreeSpec, TraceBase
M == INSTANCE PcaSpec WITH SMAX <- 1, RMAX <- 1, FACS <- {}, o <- <<>>, st <- <<>>
Close(x, y) == AbsI(x - y) <= 100                   \* 10^7 = the largest entry
AllClose(x, y) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : Close(x[i], y[i])
Queries(r) ==
    (IF \A i \in 1..Len(r.minq) : r.minq[i] >= 1 /\ r.maxq[i] <= r.o.sz[i] /\ r.integral THEN {} ELSE {"queries"})
    \cup (IF r.calls = r.evals THEN {} ELSE {"counted"})
Opt(r) == [r.o EXCEPT !.ina = RangeOf(r.o.ina)]
BadTree(r) ==
    LET o == Opt(r)
        T == o.T
        root == RootOf(T)
        W == M!Work(o)
        g == [a \in Nodes(T) |-> IF a \in o.ina THEN o.sz[PosIn(T.dims, a)] ELSE r.ranks[a]]
        rows == [a \in Nodes(T) |-> M!RowsOf(o, g, a)]
        cols(a) == r.ev[a] \div MaxI(1, rows[a])
        att == r.known /\ \A a \in W : M!Bound(o, a) >= r.want[a] /\ Len(r.A[a].data) > 0 /\ M!R!RankOf(r.A[a]) = r.want[a]
        grid(a) == r.grids[a]
        sub(a, c, row) == LET d == DimsSeq(T, a) IN [k \in 1..Len(DimsSeq(T, c)) |-> row[PosIn(d, DimsSeq(T, c)[k])]]
    IN Queries(r)
       \cup (IF r.T = T /\ r.sz = o.sz /\ r.inactive = Sorted(o.ina) /\ r.ranks[root] = 1 THEN {} ELSE {"format"})
       \cup (IF \A a \in W : rows[a] > 0 /\ r.ev[a] = rows[a] * cols(a) /\ M!SamplesOk(o, rows[a], a, cols(a)) THEN {} ELSE {"samples"})
       \cup (IF r.evals = SumSeq([a \in Nodes(T) |-> IF a \in W THEN r.ev[a] ELSE 0]) + rows[root] THEN {} ELSE {"evaluations"})
       \cup (IF \A a \in W : M!RankOk(o, rows[a], cols(a), a, r.ranks[a]) THEN {} ELSE {"ranks"})
       \cup (IF \A a \in W \cup o.ina : /\ Len(grid(a)) = g[a] /\ NoDup(grid(a))
                                        /\ \A i \in 1..Len(grid(a)) : \A k \in 1..Len(grid(a)[i]) : grid(a)[i][k] \in 1..o.sz[DimsSeq(T, a)[k]]
                                        /\ \A c \in RangeOf(Ch(T, a)) : {sub(a, c, grid(a)[i]) : i \in 1..Len(grid(a))} \subseteq RangeOf(grid(c)) THEN {} ELSE {"grids"})
       \cup (IF ~r.eim \/ AllClose(r.ongrid, r.target) THEN {} ELSE {"interpolates"})
       \cup (IF att /\ r.eim /\ ~AllClose(r.f, r.x) THEN {"recover"} ELSE {})
       \cup (IF att /\ r.eim /\ o.mode = "tol" /\ r.tight /\ \E a \in W : r.ranks[a] # r.want[a] THEN {"true_ranks"} ELSE {})
       \cup (IF r.frame THEN {} ELSE {"frame"})
BadHopca(r) ==
    LET d == Len(r.o.sz)
        cols(k) == r.ev[k] \div r.o.sz[k]
        s(k) == IF r.o.mode = "rank" THEN r.o.fac * r.o.top[k] ELSE r.o.fac * r.o.sz[k]
    IN Queries(r)
       \cup (IF Len(r.ranks) = d /\ \A k \in 1..d : r.rows[k] = r.o.sz[k] /\ r.ev[k] = cols(k) * r.o.sz[k] /\ (IF r.o.mode = "tol" /\ r.o.adapt THEN cols(k) \in 1..s(k) ELSE cols(k) = s(k)) THEN {} ELSE {"samples"})
       \cup (IF \A k \in 1..d : r.ranks[k] \in 1..MinI(r.o.top[k], r.o.sz[k]) THEN {} ELSE {"ranks"})
       \cup (IF \A k \in 1..d : \A i, j \in 1..r.ranks[k] : AbsI(r.gram[k][(j - 1) * r.ranks[k] + i] - (IF i = j THEN 1000000 ELSE 0)) <= 100 THEN {} ELSE {"orthonormal"})
       \cup (IF r.known /\ \E k \in 1..d : r.o.top[k] >= r.want[k] /\ Len(r.A[k].data) > 0 /\ M!R!RankOf(r.A[k]) = r.want[k] /\ \E i \in 1..Len(r.rest[k]) : AbsI(r.rest[k][i]) > 100 THEN {"recover"} ELSE {})
BadFunc(r) ==
    LET o == Opt(r)
        T == o.T
        W == M!Work(o)
        att == \A a \in W : M!Bound(o, a) >= r.want[a] /\ Len(r.A[a].data) > 0 /\ M!R!RankOf(r.A[a]) = r.want[a]
    IN (IF r.calls = r.evals THEN {} ELSE {"counted"})
       \cup (IF r.points THEN {} ELSE {"queries"})
       \cup (IF \A a \in W : r.ranks[a] \in 1..M!Bound(o, a) THEN {} ELSE {"ranks"})
       \cup (IF r.T = T /\ r.sz = o.sz /\ r.inactive = Sorted(o.ina) THEN {} ELSE {"format"})
       \cup (IF att /\ ~AllClose(r.f, r.x) THEN {"recover"} ELSE {})
       \cup (IF r.frame THEN {} ELSE {"frame"})
Bad1(r) == CASE r.op = "tree" -> BadTree(r) [] r.op = "hopca" -> BadHopca(r) [] r.op = "func" -> BadFunc(r)
Bad(r) == IF r.err # "" THEN {"exception"} ELSE Bad1(r)
Chk == Report(vLine, Bad(Recs[vLine]))
=============================================================================
