------------------------------ MODULE AltMinSpec -----------------------------
(* Alternating minimisation: parameters 1..P hold values; a sweep visits     *)
(* them in an announced order and replaces each by the answer of its own     *)
(* subproblem, which is posed on the current values of all the others.       *)
(* The environment answers with a new value, a failure (0: empty, zero or    *)
(* undefined), and an error estimate; the stagnation of each sweep is also   *)
(* the environment's.  The test error of a function is the value of its      *)
(* last parameter.  One visit is one step.                                   *)
EXTENDS VBase, Json
CONSTANTS PARS, SWEEPS, VALS, ESTS
VARIABLES o, st, env
vars == <<o, st, env>>
TOL == 2
INF == 2147483646
TErr(v) == v[Len(v)]

Start(opt) == [k |-> 1, pos |-> 1, v |-> opt.v0, v0 |-> opt.v0, seen |-> <<>>, e |-> 0, I |-> <<>>, E |-> <<>>, T |-> <<>>, S |-> <<>>,
               error |-> 0, flag |-> 0, stop |-> opt.sweeps = 0, why |-> "running"]
Order(opt, k) == opt.orders[k]
(* close sweep k: record it, then decide *)
Close(opt, s, stag, failed) ==
    LET est == s.E # <<>> \/ opt.est
        r == [s EXCEPT !.I = Append(@, s.v), !.T = Append(@, TErr(s.v)), !.S = Append(@, IF failed THEN 0 ELSE stag),
                       !.E = IF est THEN Append(@, IF failed THEN INF ELSE s.e) ELSE @,
                       !.error = IF failed THEN INF ELSE s.e]
        halt(flag, why) == [r EXCEPT !.stop = TRUE, !.flag = flag, !.why = why]
    IN IF failed THEN halt(-2, "failed")
       ELSE IF s.k > 1 /\ stag < TOL THEN halt(1, "stagnation")
       ELSE IF opt.hasTest /\ TErr(s.v) < TOL THEN halt(1, "test_error")
       ELSE IF s.k = opt.sweeps THEN halt(0, "budget")
       ELSE [r EXCEPT !.k = @ + 1, !.pos = 1, !.v0 = s.v]
(* one visit; x = [val (0: failure), e, stag] *)
Visit(opt, s, x) ==
    LET p == Order(opt, s.k)[s.pos]
        s1 == [s EXCEPT !.seen = Append(@, [p |-> p, v |-> s.v])]
        s2 == [s1 EXCEPT !.v[p] = x.val, !.e = x.e, !.pos = @ + 1]
    IN IF x.val = 0 THEN Close(opt, [s1 EXCEPT !.v = s.v0], 0, TRUE)
       ELSE IF s.pos < Len(Order(opt, s.k)) THEN s2
       ELSE Close(opt, s2, x.stag, FALSE)
RECURSIVE RunFrom(_, _, _)
RunFrom(opt, s, xs) == IF s.stop \/ xs = <<>> THEN s ELSE RunFrom(opt, TLCEval(Visit(opt, s, xs[1])), SubSeq(xs, 2, Len(xs)))
Run(opt, xs) == RunFrom(opt, Start(opt), xs)

(* ------------------------------------------------- orders of real learners *)
(* trees: by increasing level, by index within a level unless randomised     *)
TreeOrder(level, active, random, s) ==
    /\ RangeOf(s) = active /\ NoDup(s)
    /\ \A k \in 1..(Len(s) - 1) : level[s[k]] < level[s[k + 1]] \/ (level[s[k]] = level[s[k + 1]] /\ (random \/ s[k] < s[k + 1]))
(* canonical: the factors, then the weights                                  *)
FactorOrder(d, random, s) == Len(s) = d + 1 /\ s[d + 1] = d + 1 /\ (IF random THEN RangeOf(s) = 1..(d + 1) ELSE s = Iota(d + 1))
(* one factor at a time: every column of a factor `loops` times               *)
ColumnOrder(d, rank, loops, random, s) ==
    LET n == d * rank * loops
    IN Len(s) = n + 1 /\ s[n + 1] = n + 1 /\ (IF random THEN RangeOf(s) = 1..(n + 1) ELSE s = Iota(n + 1))

(* -------------------------------------------------------------------- model *)
Perms == {p \in [1..PARS -> 1..PARS] : NoDup(p)}
Entries(opt) == [val : {0} \cup VALS, e : IF opt.est THEN ESTS ELSE {0}, stag : {1, 3}]
Init == /\ o \in [v0 : {[i \in 1..PARS |-> 3]}, sweeps : 0..SWEEPS, orders : [1..SWEEPS -> Perms], est : BOOLEAN, hasTest : BOOLEAN]
        /\ st = Start(o) /\ env = <<>>
Next == ~st.stop /\ \E x \in Entries(o) : st' = Visit(o, st, x) /\ env' = Append(env, x) /\ o' = o
View == <<o, st>>
Rand(S) == RandomElement(IF o.sweeps > 1000 THEN {} ELSE S)
SimInit == o = [sweeps |-> 0 - 1] /\ st = [stop |-> FALSE] /\ env = <<>>
SimNext == IF o.sweeps = 0 - 1
           THEN o' = TLCEval([v0 |-> [i \in 1..PARS |-> Rand(VALS)], sweeps |-> Rand(0..SWEEPS), orders |-> [i \in 1..SWEEPS |-> Rand(Perms)], est |-> Rand(BOOLEAN), hasTest |-> Rand(BOOLEAN)])
                /\ st' = Start(o') /\ env' = <<>>
           ELSE /\ ~st.stop
                /\ env' = TLCEval(Append(env, [val |-> IF Rand(1..15) = 1 THEN 0 ELSE Rand(VALS \cup {4, 5, 6}), e |-> IF o.est THEN Rand(ESTS) ELSE 0, stag |-> IF Rand(1..5) = 1 THEN 1 ELSE 3]))
                /\ st' = TLCEval(Visit(o, st, env'[Len(env')]))
                /\ o' = o
OneRecordPerSweep == LET n == Len(st.I) IN Len(st.T) = n /\ Len(st.S) = n /\ (st.E = <<>> \/ Len(st.E) = n) /\ (IF st.stop THEN n = MinI(st.k, o.sweeps) ELSE n = st.k - 1)
LastIsReturned == (st.stop /\ st.I # <<>>) => st.v = st.I[Len(st.I)]
(* a failed sweep leaves the function of the sweep before *)
Reverted == st.why = "failed" => (st.v = (IF Len(st.I) = 1 THEN o.v0 ELSE st.I[Len(st.I) - 1]) /\ st.error = INF /\ st.flag = -2)
(* records are never rewritten: each is the successor of the previous one    *)
Monotone == [][SubSeq(st'.I, 1, Len(st.I)) = st.I]_vars
AllVisited == \A k \in 1..(Len(st.I) - (IF st.why = "failed" THEN 1 ELSE 0)) :
                 {st.seen[j].p : j \in ((k - 1) * PARS + 1)..(k * PARS)} = 1..PARS
Replayed == Run(o, env) = st
Terminates == <>(st.stop)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Emit == ~st.stop \/ PrintT(ToJson([o |-> o, xs |-> env]))
=============================================================================
