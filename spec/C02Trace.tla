----------------------------- MODULE C02Trace -----------------------------
EXTENDS ConvertSpec, TraceBase
Bad(r) == BadConv(r)
Chk == Report(vLine, Bad(Recs[vLine]))
=============================================================================
