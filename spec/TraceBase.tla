----------------------------- MODULE TraceBase -----------------------------
(* Record-by-record validation of an execution log recorded from the real    *)
(* code.  K shards walk over the log in parallel; the validator module       *)
(* defines Bad(r), the set of violated clauses of record r, and the          *)
(* invariant `Chk == Report(vLine, Bad(Recs[vLine]))`, which never fails but prints  *)
(* one line per non-conforming record.                                       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT K
VARIABLES vShard, vLine
Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
Init == vShard \in 1..K /\ vLine = vShard /\ vLine <= N
Next == vLine + K <= N /\ vLine' = vLine + K /\ UNCHANGED vShard
Report(j, b) == IF b = {} THEN TRUE ELSE PrintT(ToJson([bad |-> b, line |-> j]))
=============================================================================
