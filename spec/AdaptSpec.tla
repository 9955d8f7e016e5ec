------------------------------ MODULE AdaptSpec ------------------------------
(* The adaptive learning loop: each pass solves a problem with given ranks,  *)
(* scores the result, and decides whether to stop, to change the tree or to  *)
(* choose new ranks.  What the sub-algorithms answer (estimated error, test  *)
(* error, stagnation, whether the tree changes) is the environment: script   *)
(* entries [e, t, stag, ad, t2].  Functions are named by the pass that made  *)
(* them (TREE + k: the function of pass k after its tree was changed).       *)
(* Errors are integers, or INF / NAN.  One pass is one step.                 *)
EXTENDS VBase, Json
CONSTANTS L, ERRS, TERRS
VARIABLES o, sc, st
vars == <<o, sc, st>>
INF == 2147483646
NAN == 2147483645
TOL == 2
FAC == 10
TREE == 100
Lt(a, b) == a # NAN /\ b # NAN /\ a < b
Times(x) == IF x \in {INF, NAN} THEN x ELSE FAC * x
Numbers(s) == {s[k] : k \in 1..Len(s)} \ {NAN}
Best(s) == IF Numbers(s) = {} THEN NAN ELSE Min(Numbers(s))
Worse(s, x) == x = NAN \/ Lt(Times(Best(s)), x)

Start(opt) == [n |-> 0, stop |-> FALSE, flag |-> 0, E |-> <<>>, T |-> <<>>, I |-> <<>>, f |-> 0, tprev |-> FALSE,
               ranks |-> <<opt.rank>>, guess |-> <<0>>, why |-> "running"]
Stopped(s, flag, why) == [s EXCEPT !.stop = TRUE, !.flag = flag, !.why = why]
Pass(opt, s, x) ==
    LET k == s.n + 1
        s0 == [s EXCEPT !.n = k]
        kept == [s0 EXCEPT !.E = Append(@, x.e), !.T = Append(@, x.t), !.I = Append(@, k), !.f = k]
        ad == opt.tree /\ k > 1 /\ (~opt.force \/ ~s.tprev) /\ x.ad
        fk == IF ad THEN TREE + k ELSE k
        changed == [kept EXCEPT !.T[k] = IF ad THEN x.t2 ELSE @, !.I[k] = fk, !.f = fk, !.tprev = ad]
        next(r) == [changed EXCEPT !.ranks = Append(@, r), !.guess = Append(@, fk)]
    IN IF opt.hasErr /\ x.e = INF THEN (IF k = 1 THEN Stopped(kept, -2, "failed") ELSE Stopped(s0, -2, "failed"))
       ELSE IF k = opt.maxIt THEN Stopped(kept, 0, "budget")
       ELSE IF (opt.hasTest /\ Lt(x.t, TOL)) \/ (opt.hasErr /\ Lt(x.e, TOL)) THEN Stopped(kept, 1, "tolerance")
       ELSE IF opt.early /\ k > 1 /\ ((opt.hasTest /\ Worse(s.T, x.t)) \/ (opt.hasErr /\ Worse(s.E, x.e))) THEN Stopped(s0, -1, "early")
       ELSE IF ad THEN next(0)                     \* same ranks, new tree
       ELSE IF k > 1 /\ ~s.tprev /\ (x.stag = NAN \/ x.stag < TOL) THEN Stopped(changed, 0, "stagnation")
       ELSE next(1000 + fk)                        \* ranks chosen from the function

(* ------------------------------------------------------------------ outcome *)
Scores(opt, s) == IF opt.msel = "test_error" THEN s.T ELSE s.E
Selects(opt) == (opt.msel = "test_error" /\ opt.hasTest) \/ opt.msel = "cv_error"
SelectedOk(opt, s, j) ==
    LET v == Scores(opt, s)
    IN j \in 1..Len(v) /\ (Numbers(v) \subseteq {INF} \/ v[j] = Best(v))
(* run a whole script *)
RECURSIVE RunFrom(_, _, _)
RunFrom(opt, s, script) == IF s.stop \/ script = <<>> THEN s ELSE RunFrom(opt, TLCEval(Pass(opt, s, script[1])), SubSeq(script, 2, Len(script)))
Run(opt, script) == RunFrom(opt, Start(opt), script)

(* -------------------------------------------------------------------- model *)
Options == {opt \in [maxIt : 1..L, early : BOOLEAN, hasErr : BOOLEAN, hasTest : BOOLEAN, msel : {"none", "test_error", "cv_error", "other"}, force : BOOLEAN, tree : BOOLEAN, rank : {1}] :
            (opt.msel = "cv_error" => opt.hasErr) /\ (~opt.tree => opt.force)}
(* an undefined first score leaves early stopping nothing to compare with *)
Judged(opt, k, x) == ~(opt.early /\ k = 1 /\ (x.t = NAN \/ x.e = NAN))
Entries(opt, k) == {x \in [e : IF opt.hasErr THEN ERRS ELSE {0}, t : IF opt.hasTest THEN TERRS ELSE {0},
                          stag : IF k = 1 THEN {3} ELSE {1, 3, NAN}, ad : IF opt.tree /\ k > 1 THEN BOOLEAN ELSE {FALSE}, t2 : IF opt.hasTest /\ opt.tree /\ k > 1 THEN {4, 70} ELSE {0}] :
                      Judged(opt, k, x) /\ (x.ad \/ x.t2 \in {0, 4})}
Init == o \in Options /\ sc = <<>> /\ st = Start(o)
Next == /\ ~st.stop
        /\ \E x \in Entries(o, st.n + 1) : sc' = Append(sc, x) /\ st' = Pass(o, st, x)
        /\ o' = o
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
View == <<o, st>>
Rand(S) == RandomElement(IF o.maxIt > 1000 THEN {} ELSE S)     \* depends on the state: constants are evaluated once
SimInit == o = [maxIt |-> 0] /\ sc = <<>> /\ st = [stop |-> FALSE]
SimNext == IF o.maxIt = 0
           THEN /\ o' = TLCEval(LET opt == [maxIt |-> Rand(1..L), early |-> Rand(BOOLEAN), hasErr |-> Rand(BOOLEAN), hasTest |-> Rand(BOOLEAN),
                                           msel |-> Rand({"none", "test_error", "cv_error", "other"}), force |-> Rand(BOOLEAN), tree |-> Rand(BOOLEAN), rank |-> 1]
                                IN IF opt.msel = "cv_error" THEN [opt EXCEPT !.hasErr = TRUE] ELSE opt)
                /\ sc' = <<>> /\ st' = Start(o')
           ELSE /\ ~st.stop
                /\ sc' = TLCEval(LET k == st.n + 1
                                     x == [e |-> IF o.hasErr THEN Rand(ERRS) ELSE 0, t |-> IF o.hasTest THEN Rand(TERRS) ELSE 0,
                                           stag |-> Rand({1, 3, 3, 3, NAN} \cup {3, 4, 5, 6, 7}), ad |-> Rand(BOOLEAN), t2 |-> Rand({4, 6, 70})]
                                 IN Append(sc, IF Judged(o, k, x) THEN x ELSE [x EXCEPT !.e = MinI(@, 5), !.t = MinI(@, 5)]))
                /\ st' = TLCEval(Pass(o, st, sc'[Len(sc')]))
                /\ o' = o
(* ---------------------------------------------------------------- properties *)
Kept == Len(st.E) = Len(st.T) /\ Len(st.T) = Len(st.I) /\ Len(st.I) >= st.n - 1 /\ Len(st.I) <= st.n
Returned == st.n > 0 => st.I # <<>> /\ st.f = st.I[Len(st.I)]      \* the function is the one whose errors are reported last
Bounded == st.n <= o.maxIt /\ Len(st.ranks) <= o.maxIt
Reason == CASE st.why = "running" -> ~st.stop
            [] st.why = "failed" -> st.flag = -2 /\ sc[st.n].e = INF /\ (st.n > 1 => \A k \in 1..Len(st.E) : st.E[k] # INF)
            [] st.why = "budget" -> st.flag = 0 /\ st.n = o.maxIt
            [] st.why = "tolerance" -> st.flag = 1 /\ st.n < o.maxIt
            [] st.why = "early" -> st.flag = -1 /\ o.early /\ Len(st.I) = st.n - 1
            [] st.why = "stagnation" -> st.flag = 0 /\ Len(st.I) = st.n
(* a kept score, when early stopping is on, is never an order of magnitude worse than an earlier one (except the last of the budget,
   and scores recomputed after a change of tree) *)
NoBlowUp == (st.stop /\ o.early /\ o.hasErr) => \A k \in 2..Len(st.E) : k = o.maxIt \/ (st.why = "tolerance" /\ k = st.n) \/ ~Worse(SubSeq(st.E, 1, k - 1), st.E[k])
Alternate == (o.force /\ st.n > 0) => \A k \in 2..(Len(st.ranks) - 1) : ~(st.ranks[k] = 0 /\ st.ranks[k + 1] = 0)
Selectable == (st.stop /\ Selects(o)) => \E j \in 1..Len(st.I) : SelectedOk(o, st, j)
Replayed == st.n > 0 => Run(o, sc) = st
Terminates == <>(st.stop)
Emit == ~st.stop \/ PrintT(ToJson([o |-> o, sc |-> sc]))
=============================================================================
