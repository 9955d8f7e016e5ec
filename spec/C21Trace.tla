------------------------------ MODULE C21Trace ------------------------------
EXTENDS VBase, TraceBase
M == INSTANCE SelSpec WITH N <- 1, PMAX <- 1, RMAX <- 1, fam <- <<>>, cur <- 0, at <- 0, seen <- <<>>
BadSelect(r) == IF Len(r.val) = Len(r.lam) /\ \A k \in 1..Len(r.lam) : r.val[k] \in M!MinSet(r.fam, r.lam[k]) THEN {} ELSE {"minimiser"}
BadPath(r) ==
    LET P == M!Path(r.fam)
    IN IF P = <<>> THEN
          (IF \A k \in 1..Len(r.path) : r.path[k][1] = 0 THEN {} ELSE {"path"})
          \cup (IF \A k \in 1..Len(r.mpath) : r.mpath[k] \in M!MinSet(r.fam, <<1, 1000>>) THEN {} ELSE {"models"})
       ELSE (IF r.path = M!Ext(P) THEN {} ELSE {"path"})
            \cup (IF Len(r.mpath) # Len(P) + 2 THEN {"models"}
                  ELSE IF /\ r.mpath[1] \in M!MinSet(r.fam, <<0, 1>>)
                          /\ \A k \in 1..Len(P) : r.mpath[k + 1] \in M!After(r.fam, P[k])
                          /\ r.mpath[Len(P) + 2] \in M!After(r.fam, P[Len(P)]) THEN {} ELSE {"models"})
BadSlope(r) ==
    LET P == M!Path(r.fam)
        alleq == \A k \in 1..Len(r.comp) : r.comp[k] = r.comp[1]
    IN IF alleq THEN {}
       ELSE IF P = <<>> THEN (IF r.lam[1] = 0 /\ r.val \in M!MinSet(r.fam, <<0, 1>>) THEN {} ELSE {"model"})
       ELSE (IF \E k \in M!Largest(r.fam, r.comp) : r.lam = Rat(P[k][1] * r.gap[1], P[k][2] * r.gap[2]) THEN {} ELSE {"factor"})
            \cup (IF r.val \in M!MinSet(r.fam, r.lam) THEN {} ELSE {"model"})
            \cup (IF r.path = M!Ext(P) THEN {} ELSE {"path"})
Bad1(r) == (CASE r.op = "select" -> BadSelect(r)
              [] r.op = "path" -> BadPath(r)
              [] r.op = "slope" -> BadSlope(r))
           \cup (IF r.comp = r.compafter /\ r.riskafter = [k \in 1..Len(r.fam) |-> r.fam[k].risk] THEN {} ELSE {"data_changed"})
Bad(r) == IF r.err # "" THEN {"exception"} ELSE Bad1(r)
Chk == Report(vLine, Bad(Recs[vLine]))
=============================================================================
