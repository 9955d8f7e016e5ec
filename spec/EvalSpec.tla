------------------------------ MODULE EvalSpec ------------------------------
(* Entry, partial and diagonal evaluation (C03).                             *)
(* pos = "lo": the mode enumerating the points sits at the smallest          *)
(* evaluated mode; pos = "first": it comes first (both documented as "up to  *)
(* a permutation"; which one is a fixed convention of each format).          *)
EXTENDS FormatSpec
MoveFirst(T, modes) ==
    LET lo == Sorted(RangeOf(modes))[1]
    IN Transpose(T, <<lo>> \o OtherPos(Order(T), <<lo>>))
Place(T, r) == IF r.pos = "first" THEN MoveFirst(T, r.modes) ELSE T
EvalExpected(r) ==
    LET X == Denote(r.x) IN
    CASE r.op = "evalall"   -> EvalAll(X, r.pts)
      [] r.op = "evalmodes" -> Place(EvalModes(X, r.pts, r.modes), r)
      [] r.op = "diagall"   -> DiagModes(X, Iota(Order(X)))
      [] r.op = "diagmodes" -> Place(DiagModes(X, r.modes), r)
      [] r.op = "evalroot"  ->                       \* vector-valued tree tensors: points x outputs
            LET d == Order(X) - 1 IN EvalModes(X, r.pts, Iota(d))
      [] r.op = "diagroot"  -> DiagModes(X, Iota(Order(X) - 1))
      [] r.op = "sub"       -> SubT(X, r.sel)
      [] r.op = "subroot"   -> SubT(X, r.sel \o <<Iota(X.shape[Order(X)])>>)
NoOnes(T) == SqueezeAll(T)
BadEval(r) ==
    IF r.err # "" THEN {"exception"}
    ELSE IF ~WF(r.out) THEN {"illformed"}
    ELSE LET E0 == EvalExpected(r)
             O0 == Denote(r.out)
             E == IF r.loose THEN NoOnes(E0) ELSE E0
             O == IF r.loose THEN NoOnes(O0) ELSE O0
         IN IF O.shape # E.shape THEN {"shape"} ELSE IF O.data # E.data THEN {"entries"} ELSE {}
=============================================================================
