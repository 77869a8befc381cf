------------------------------- MODULE Chain -------------------------------
(* A chain of states over time: F is the matrix of transition weights, P[t] *)
(* the weights of the states at step t given its evidence.  The weight of a *)
(* path is the product of all weights along it; the marginal of a state at  *)
(* a step is the share of the paths that pass through it.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Rat
States(F) == 1..Len(F)
Max1(v) == LET RECURSIVE M(_) M(i) == IF i = 0 THEN "0" ELSE RMax(M(i - 1), v[i]) IN M(Len(v))
(* by forward and backward messages                                         *)
RECURSIVE Forward(_, _, _)
Forward(F, P, acc) == IF Len(acc) = Len(P) THEN acc
    ELSE LET t == Len(acc) + 1 IN
         Forward(F, P, Append(acc, TLCEval([j \in States(F) |-> RMul(P[t][j], RSum([i \in States(F) |-> RMul(acc[t - 1][i], F[i][j])]))])))
(* Backward: from the last step to the first                                *)
RECURSIVE Backward(_, _, _)
Backward(F, P, acc) == IF Len(acc) = Len(P) THEN acc
    ELSE LET k == Len(acc) t == Len(P) - k + 1 IN
         Backward(F, P, Append(acc, TLCEval([i \in States(F) |-> RSum([j \in States(F) |-> RMul(RMul(F[i][j], P[t][j]), acc[k][j])])])))
Fwd(F, P) == Forward(F, P, <<P[1]>>)
Bwd(F, P) == Backward(F, P, <<[i \in States(F) |-> "1"]>>)
Weight(F, P) == RSum(Fwd(F, P)[Len(P)])
Products(z, a, b) == [t \in 1..Len(a) |-> TLCEval([i \in DOMAIN a[t] |-> RDiv(RMul(a[t][i], b[Len(a) + 1 - t][i]), z)])]
Marginals(F, P) == CHOOSE x \in {Products(RSum(a[Len(P)]), a, b) : a \in {Fwd(F, P)}, b \in {Bwd(F, P)}} : TRUE

(* by definition                                                            *)
Paths(F, n) == [1..n -> States(F)]
PathWeight(F, P, x) == RMul(RProd([t \in 1..Len(P) |-> P[t][x[t]]]), RProd([t \in 1..(Len(P) - 1) |-> F[x[t]][x[t + 1]]]))
SumOver(S, W(_)) == LET RECURSIVE G(_) G(U) == IF U = {} THEN "0" ELSE LET x == CHOOSE x \in U : TRUE IN RAdd(W(x), G(U \ {x})) IN G(S)
Through(F, P, t, i) == LET W(x) == PathWeight(F, P, x) IN SumOver({x \in Paths(F, Len(P)) : x[t] = i}, W)
AllPaths(F, P) == LET W(x) == PathWeight(F, P, x) IN SumOver(Paths(F, Len(P)), W)

(* Transition weights from sequences of states: relative frequencies of the *)
(* pairs of consecutive states, within sequences.                           *)
RECURSIVE Steps(_)
Steps(seqs) == IF seqs = <<>> THEN <<>>
               ELSE [k \in 1..(Len(seqs[1]) - 1) |-> <<seqs[1][k], seqs[1][k + 1]>>] \o Steps(Tail(seqs))
Frequencies(n, seqs) == LET st == TLCEval(Steps(seqs)) IN
    [i \in 1..n |-> [j \in 1..n |-> RDiv(Cardinality({k \in 1..Len(st) : st[k] = <<i, j>>}), Len(st))]]
=============================================================================
