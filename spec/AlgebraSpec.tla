---------------------------- MODULE AlgebraSpec ----------------------------
(* The algebra of tensors: what each operation of the library must return,   *)
(* as a function of the arrays its operands denote (C01).  `r` is an         *)
(* operation instance: r.op, operands r.x (r.y) and mode/size arguments,     *)
(* all modes and indices 1-based.                                            *)
EXTENDS FormatSpec

(* matrix arguments are order-2 tensors, vectors are sequences *)
EvalDiagProduct(T, Ms, modes, first) ==
    LET P == ModeProds(T, Ms, modes)
        D == DiagModes(P, modes)
        lo == Sorted(RangeOf(modes))[1]
    IN IF first THEN Transpose(D, <<lo>> \o OtherPos(Order(D), <<lo>>)) ELSE D

Expected(r) ==
    LET X == Denote(r.x)
        Y == Denote(r.y)
    IN
    CASE r.op = "add"       -> Add(X, Y)
      [] r.op = "sub"       -> Sub(X, Y)
      [] r.op = "neg"       -> Scale(-1, X)
      [] r.op = "scale"     -> Scale(r.c, X)
      [] r.op = "addc"      -> AddC(r.c, X)
      [] r.op = "rsubc"     -> AddC(r.c, Scale(-1, X))
      [] r.op = "hadamard"  -> Had(X, Y)
      [] r.op = "power"     -> PowT(X, r.c)
      [] r.op = "over"      -> X                          \* checked after multiplying back
      [] r.op = "kron"      -> Kron(X, Y)
      [] r.op = "cat"       -> Cat(X, Y, r.modes)
      [] r.op = "transpose" -> Transpose(X, r.modes)
      [] r.op = "itranspose" -> Transpose(X, InvPerm(r.modes))
      [] r.op = "reshape"   -> Reshape(X, r.shape)
      [] r.op = "squeeze"   -> Drop(X, r.modes)
      [] r.op = "squeezeall" -> SqueezeAll(X)
      [] r.op = "subtensor" -> SubT(X, r.sel \o [k \in 1..(Order(X) - Len(r.sel)) |-> Iota(X.shape[Len(r.sel) + k])])
      [] r.op = "sumkeep"   -> SumKeep(X, r.modes)
      [] r.op = "sumdrop"   -> SumDrop(X, r.modes)
      [] r.op = "tvp"       -> VecProds(X, r.vecs, r.modes)
      [] r.op = "tmp"       -> ModeProds(X, r.mats, r.modes)
      [] r.op = "tdmp"      -> ModeProds(X, [k \in 1..Len(r.vecs) |-> DiagMat(r.vecs[k])], r.modes)
      [] r.op = "tmpdiag"   -> EvalDiagProduct(X, r.mats, r.modes, FALSE)
      [] r.op = "tmpdiagfirst" -> EvalDiagProduct(X, r.mats, r.modes, TRUE)
      [] r.op = "contract"  -> Contract(X, Y, r.p, r.q)
      [] r.op = "einsum"    -> EinDiag(X, Y, r.p, r.q, r.pd, r.qd, r.many)
      [] r.op = "matricize" -> Matricize(X, r.p, r.q)
      [] r.op = "contractexcept" -> Contract(X, ModeProds(Y, r.mats, r.modes), r.modes, r.modes)
      [] r.op = "rankone"   -> Scalar(Dot(X, ModeProds(Y, r.mats, r.modes)))
      [] r.op = "rootmap"   -> ModeProd(X, r.mat, Order(X))
=============================================================================
