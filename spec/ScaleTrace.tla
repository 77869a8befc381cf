----------------------------- MODULE ScaleTrace -----------------------------
(* Two systems in lockstep: the same history of calls on unscaled and on    *)
(* scaled numeric variables.  Seen from label space they are bisimilar:     *)
(* every step has the same effect and gives the same answers, numbers up to *)
(* the tolerance.  What is not expressed in label space (densities) is left *)
(* out of the recorded events.                                              *)
(*   a, b    [path, value] of what is discrete in the event of the unscaled *)
(*           and of the scaled system                                       *)
(*   an, bn  the numbers, at the paths ap, bp                               *)
EXTENDS TraceBase
VARIABLE on       \* whether the two still are about the same tree
vars == <<h, l, on>>
Init == h \in 1..Len(Hist) /\ l = 0 /\ on = TRUE
SameShape == E.ap = E.bp /\ E.a = E.b
Differs == {i \in 1..Len(E.a) : i > Len(E.b) \/ E.a[i] # E.b[i]}
Least(S) == CHOOSE i \in S : \A j \in S : i <= j
(* relative to the size of the numbers of the history                       *)
Near(x, y) == IF x = y THEN TRUE ELSE RClose(x, y, RMul(Tol, RMax("1", RAbs(x))))
Off == {i \in 1..Len(E.an) : ~Near(E.an[i], E.bn[i])}
(* Equally good splits and similarities at the threshold may be decided     *)
(* differently; evidence of no probability but rounding errors may pass for *)
(* impossible or not.                                                       *)
Noise(p) == p = "nan" \/ (p # "0" /\ RLt(RAbs(p), "1/10000000"))
Grey == \E i \in 1..Len(E.mass) : Noise(E.mass[i])
(* two modes nearly as high as one another                                  *)
Tied == E.op = "mpe" /\ \E i \in 1..Len(E.dens) : \E j \in 1..Len(E.dens) : i < j /\ RClose(E.dens[i], E.dens[j], RMul("1/1000000", RMax("1", RAbs(E.dens[i]))))
Free == (E.op \in {"learn", "prune"} /\ E.twin = E.op /\ (~SameShape \/ Off # {})) \/ Grey
Step == /\ l < Len(Ev) /\ l' = l + 1 /\ UNCHANGED h
        /\ on' = (on /\ ~Free)
        /\ IF ~on \/ Free \/ Tied THEN TRUE ELSE
           IF E.op # E.twin THEN Chk("C24.scaled-" \o E.op, FALSE, <<"other events", E.twin>>)
           ELSE IF ~SameShape THEN
                Chk("C24.scaled-" \o E.op, FALSE,
                    IF Differs = {} THEN <<"other numbers", Len(E.an), Len(E.bn)>>
                    ELSE LET i == Least(Differs) IN <<E.a[i], IF i <= Len(E.b) THEN E.b[i] ELSE "nothing">>)
           ELSE Chk("C24.scaled-" \o E.op, Off = {}, IF Off = {} THEN "" ELSE LET i == Least(Off) IN <<E.ap[i], E.an[i], E.bn[i]>>)
Spec == Init /\ [][Step]_vars
=============================================================================
