------------------------------- MODULE HeapSpec ------------------------------
(* Programs over the objects of HeapOps: every step makes a new object and   *)
(* leaves all the others as they are, so that an object stands for the steps *)
(* it was computed from, whatever else the program does.                     *)
EXTENDS HeapOps, Json
CONSTANTS KINDS, LEN
SmallKinds == <<"full", "dt", "tr", "perm">>
AllKinds == <<"full", "sparse", "canon", "tbt", "diag", "dt", "mi", "dcs", "vecs", "mats", "mets", "inds", "perm", "dims", "arrs", "grid", "pb", "bases", "pts", "pts1", "meas",
  "full", "sparse", "canon", "tbt", "diag", "dt", "mi", "dcs", "vecs", "mats", "mets", "inds", "perm", "dims", "arrs", "grid", "pb", "bases", "pts", "pts1", "meas", "tr", "tr">>
VARIABLES kinds, prog, val
(* kinds[r]: kind of object r; val[r]: the term it stands for (abstract      *)
(* value); prog: the steps                                                   *)
Of(k) == {r \in 1..Len(kinds) : kinds[r] = k}
Ready(o) == \A i \in 1..Len(o.a) : Of(o.a[i]) # {}
Init == kinds = KINDS /\ prog = <<>> /\ val = [r \in 1..Len(KINDS) |-> <<"object", r>>]
Apply(o, args) == /\ prog' = Append(prog, [op |-> o.n, args |-> args, res |-> Len(kinds) + 1])
                  /\ kinds' = Append(kinds, o.r)
                  /\ val' = Append(val, <<o.n, [i \in 1..Len(args) |-> val[args[i]]]>>)
Next == /\ Len(prog) < LEN
        /\ \E o \in Ops : Ready(o) /\ \E args \in [1..Len(o.a) -> 1..Len(kinds)] : (\A i \in 1..Len(o.a) : kinds[args[i]] = o.a[i]) /\ Apply(o, args)
Spec == Init /\ [][Next]_<<kinds, prog, val>>
(* simulation: one random step, favouring objects made by the program        *)
Pick(k) == LET S == Of(k)
               N == {r \in S : r > Len(KINDS)}
           IN IF N # {} /\ RandomElement(1..3) # 1 THEN RandomElement(N) ELSE RandomElement(S)
SimNext == /\ Len(prog) < LEN
           /\ \E o \in {RandomElement({p \in Ops : Ready(p)})} : \E args \in {[i \in 1..Len(o.a) |-> Pick(o.a[i])]} : Apply(o, args)
(* meaning of an object: only the steps it was computed from                 *)
RECURSIVE Meaning(_)
Meaning(r) == IF r <= Len(KINDS) THEN <<"object", r>>
              ELSE LET s == prog[r - Len(KINDS)] IN <<s.op, [i \in 1..Len(s.args) |-> Meaning(s.args[i])]>>
Independent == \A r \in 1..Len(val) : val[r] = Meaning(r)
Stable == [][\A r \in 1..Len(val) : val'[r] = val[r]]_<<kinds, prog, val>>
Emit == Len(prog) < LEN \/ PrintT(ToJson(prog))
=============================================================================
