------------------------------- MODULE MCTree -------------------------------
(* The laws of conditioning, marginals, explanations and merging for all    *)
(* small mixtures of two leaves over a numeric and a symbolic variable, and *)
(* all pairs of constraints from the given families.  The tree is           *)
(* conditioned on e, then on f, or its leaves are merged.                   *)
EXTENDS Tree, TLC
CONSTANT Wide     \* all the constraints, or the fewer ones for quick checks
VARIABLES ls, e, f, op, was
vars == <<ls, e, f, op, was>>

V  == <<[kind |-> "num", n |-> 2, grid |-> <<"0", "1">>, scale |-> "1"], [kind |-> "sym", n |-> 2]>>
NV == Len(V)
NumD == {<<"0", "0", "1", "0", "0">>, <<"0", "1", "0", "0", "0">>, <<"0", "1/2", "1/2", "0", "0">>, <<"0", "0", "3/4", "1/4", "0">>}
SymD == {<<"1", "0">>, <<"1/4", "3/4">>}
NumC == IF Wide THEN {{3}, {2, 3}, {3, 4}, {4, 5}, {1, 2, 3, 4, 5}} ELSE {{3}, {2, 3}, {4, 5}}
NumCs == {[t |-> "set", s |-> S] : S \in NumC} \cup {None}
SymCs == {[t |-> "set", s |-> S] : S \in IF Wide THEN {{1}, {2}, {1, 2}} ELSE {{1}, {2}}} \cup {None}
Constraints == {<<a, b>> : a \in NumCs, b \in SymCs}
LeafD == {<<a, b>> : a \in NumD, b \in SymD}

Init == /\ \E w \in {"1/4", "1/2"}, d1, d2 \in LeafD :
              ls = <<[w |-> w, d |-> d1], [w |-> RSub(1, w), d |-> d2]>>
        /\ e = <<None, None>> /\ f = e /\ op = "start" /\ was = <<>>
Strip(g) == [k \in 1..Len(g) |-> [w |-> g[k].w, d |-> g[k].d]]
Possible(x, c) == RLt(0, Prob(V, x, c))
Choose_ == op = "start" /\ op' = "none" /\ e' \in Constraints /\ f' \in Constraints /\ UNCHANGED <<ls, was>>
Apply == /\ UNCHANGED <<e, f>> /\ was' = ls /\ op = "none"
        /\ \/ Possible(ls, e) /\ ls' = Strip(Given(V, ls, e)) /\ op' = "condition"
           \/ ls' = <<Join(V, ls[1], ls[2])>> /\ op' = "merge"
Next == Choose_ \/ Apply
Spec == Init /\ [][Next]_vars

One(x) == REq(x, 1)
Distribution == /\ One(RSum([k \in 1..Len(ls) |-> ls[k].w]))
                /\ \A k \in 1..Len(ls) : \A i \in 1..NV : One(RSum(ls[k].d[i])) /\ \A j \in 1..Len(ls[k].d[i]) : RLe(0, ls[k].d[i][j])
NotC(i, c) == [x \in 1..NV |-> IF x = i THEN [t |-> "set", s |-> Full(V[i]) \ (IF c.t = "none" THEN Full(V[i]) ELSE c.s)] ELSE None]
OnlyC(i, c) == [x \in 1..NV |-> IF x = i THEN c ELSE None]
InUnit == (op = "none" /\ Possible(ls, e)) => LET p == Infer(V, ls, f, e) IN RLe(0, p) /\ RLe(p, 1)
Additive == (op = "none" /\ Possible(ls, e)) => \A i \in 1..NV :
               One(RAdd(Infer(V, ls, OnlyC(i, f[i]), e), Infer(V, ls, NotC(i, f[i]), e)))
Implied == (op = "none" /\ Possible(ls, e)) => One(Infer(V, ls, e, e))
(* asking the conditional tree is asking the tree given the evidence        *)
CondInfers == (op = "condition") => REq(Prob(V, ls, f), Infer(V, was, f, e))
(* conditioning twice is conditioning on both                               *)
CondCond == (op = "condition" /\ Possible(ls, f)) => Strip(Given(V, ls, f)) = Strip(Given(V, was, Both(e, f)))
Bayes == (op = "none" /\ Possible(ls, e) /\ Possible(ls, f)) =>
            REq(RMul(Infer(V, ls, f, e), Prob(V, ls, e)), RMul(Infer(V, ls, e, f), Prob(V, ls, f)))
PosteriorIsInfer == (op = "none" /\ Possible(ls, e)) => \A i \in 1..NV :
            f[i].t # "none" => REq(Within(Posterior(V, ls, e, i), f[i].s), Infer(V, ls, OnlyC(i, f[i]), e))
(* merging leaves keeps the marginals, and leaves a single leaf whose       *)
(* variables are independent                                                *)
MergeMarginals == (op = "merge") => \A i \in 1..NV : Marginal(ls, i) = Marginal(was, i)
TowerRule == (op = "merge") => REq(MeanOf(V[1], ls[1].d[1]), RAdd(RMul(was[1].w, MeanOf(V[1], was[1].d[1])), RMul(was[2].w, MeanOf(V[1], was[2].d[1]))))
(* no state of the symbolic variable is more probable in a leaf than its    *)
(* best one; what survives conditioning satisfies the evidence              *)
Survives == (op = "condition") => \A k \in 1..Len(ls) : \A i \in 1..NV :
               e[i].t # "none" => \A j \in Full(V[i]) \ e[i].s : REq(ls[k].d[i][j], 0)
ModesMaximal == \A k \in 1..Len(ls) : LET d == ls[k].d[2] m == Modes(d, "0") IN m # {} /\ \A i \in m : \A j \in 1..Len(d) : RLe(d[j], d[i])
FirmlyNothing == (op = "none") => \A k \in 1..Len(ls) : (Firmly0(V, ls[k], e) => REq(MassIn(V, ls[k], e), 0)) /\ (Far0(V, ls[k], e) => Firmly0(V, ls[k], e))
=============================================================================
