----------------------------- MODULE C11Trace -----------------------------
EXTENDS GradientSpec, TraceBase
Bad(r) == BadGrad(r)
Chk == Report(vLine, Bad(Recs[vLine]))
=============================================================================
