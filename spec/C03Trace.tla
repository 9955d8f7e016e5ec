----------------------------- MODULE C03Trace -----------------------------
EXTENDS EvalSpec, TraceBase
Bad(r) == BadEval(r)
Chk == Report(vLine, Bad(Recs[vLine]))
=============================================================================
