------------------------------ MODULE MCChain ------------------------------
(* A chain grows step by step, for all small transition counts and weights: *)
(* messages compute the marginals; marginals are distributions; appending a *)
(* step without evidence about it does not matter to the order of the rest; *)
(* frequencies of the steps of sequences sum to one and are consistent with *)
(* the visits of the states.                                                *)
EXTENDS Chain, TLC
CONSTANTS N, Steps_
VARIABLES seqs, P
vars == <<seqs, P>>
Rows(n) == IF n = 2 THEN {<<"1", "0">>, <<"0", "1">>, <<"1/2", "1/2">>, <<"3/4", "1/4">>}
           ELSE {<<"1", "0", "0">>, <<"0", "1/2", "1/2">>, <<"1/4", "1/4", "1/2">>}
Seqs == UNION {[1..k -> 1..N] : k \in 2..3}
Init == /\ seqs \in {<<a, b>> : a \in Seqs, b \in {s \in Seqs : Len(s) = 2}}
        /\ P = <<>>
Next == Len(P) < Steps_ /\ \E p \in Rows(N) : P' = Append(P, p) /\ UNCHANGED seqs
Spec == Init /\ [][Next]_vars
F == Frequencies(N, seqs)
One(x) == REq(x, 1)
Possible == P # <<>> /\ RLt(0, Weight(F, P))
Relative == One(RSum([i \in 1..N |-> RSum(F[i])]))
MessagesExact == P # <<>> => /\ REq(Weight(F, P), AllPaths(F, P))
                             /\ Possible => \A t \in 1..Len(P) : \A i \in 1..N : REq(Marginals(F, P)[t][i], RDiv(Through(F, P, t, i), AllPaths(F, P)))
Proper == Possible => \A t \in 1..Len(P) : One(RSum(Marginals(F, P)[t]))
(* the marginal of a step is absolutely continuous with respect to its own  *)
(* weights                                                                  *)
Within == Possible => \A t \in 1..Len(P) : \A i \in 1..N : REq(P[t][i], 0) => REq(Marginals(F, P)[t][i], 0)
(* reversing time                                                           *)
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
Transposed == [i \in 1..N |-> [j \in 1..N |-> F[j][i]]]
Reversible == Possible => \A t \in 1..Len(P) : \A i \in 1..N : REq(Marginals(F, P)[t][i], Marginals(Transposed, Rev(P))[Len(P) + 1 - t][i])
ScaleFree == Possible => LET P2 == [t \in 1..Len(P) |-> [i \in 1..N |-> RMul(P[t][i], "1/3")]] IN \A t \in 1..Len(P) : \A i \in 1..N : REq(Marginals(F, P)[t][i], Marginals(F, P2)[t][i])
=============================================================================
