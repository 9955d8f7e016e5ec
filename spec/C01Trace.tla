----------------------------- MODULE C01Trace -----------------------------
EXTENDS AlgebraSpec, TraceBase
Bad(r) ==
    IF r.err # "" THEN {"exception"}
    ELSE IF ~WF(r.out) THEN {"illformed"}
    ELSE LET E == Expected(r)
             O == Denote(r.out)
             ns == Len(E.shape)
         IN IF O.shape # E.shape THEN {"shape"}
            ELSE (IF O.data # E.data THEN {"entries"} ELSE {})
              \cup (IF r.att.rshape # SubSeq(E.shape, 1, Len(r.att.rshape)) \/ r.att.rorder # Len(r.att.rshape)
                       \/ r.att.rndim # r.att.rorder
                       \/ (r.x.fmt # "tree" /\ r.att.rorder # ns)
                    THEN {"announced"} ELSE {})
Chk == Report(vLine, Bad(Recs[vLine]))
=============================================================================
