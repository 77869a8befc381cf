------------------------------ MODULE Discrete ------------------------------
(* Distributions over n labels: sequences of n rationals that sum to one.   *)
EXTENDS Integers, Sequences, FiniteSets, Rat
ProbOf(d, S)    == RSum([i \in 1..Len(d) |-> IF i \in S THEN d[i] ELSE "0"])
Condition(d, S) == LET p == ProbOf(d, S) IN [i \in 1..Len(d) |-> IF i \in S THEN RDiv(d[i], p) ELSE "0"]
Mixture(ds, ws) == [i \in 1..Len(ds[1]) |-> RDot(ws, [k \in 1..Len(ds) |-> ds[k][i]])]
Point(n, k)     == [i \in 1..n |-> IF i = k THEN "1" ELSE "0"]
RECURSIVE Power(_, _)
Power(x, k)     == IF k = 0 THEN "1" ELSE RMul(x, Power(x, k - 1))
(* moments of order k about c, the labels being the numbers lab[i]          *)
MomentD(d, lab, k, c) == RSum([i \in 1..Len(d) |-> RMul(d[i], Power(RSub(lab[i], c), k))])
MeanD(d, lab)   == MomentD(d, lab, 1, "0")
VarD(d, lab)    == MomentD(d, lab, 2, MeanD(d, lab))
(* sum of two independent numbers; the labels of each being consecutive     *)
Convolve(d, e)  == [z \in 1..(Len(d) + Len(e) - 1) |->
                    RSum([i \in 1..Len(d) |-> IF z - i + 1 \in 1..Len(e) THEN RMul(d[i], e[z - i + 1]) ELSE "0"])]
Overlap(d, e)   == RDiv(RSum([i \in 1..Len(d) |-> RMin(d[i], e[i])]), RSum([i \in 1..Len(d) |-> RMax(d[i], e[i])]))
Proper(d)       == REq(RSum(d), 1) /\ \A i \in 1..Len(d) : RLe(0, d[i])
(* The levels of positive probability, each with the labels attaining it    *)
LevelsD(d)      == {d[i] : i \in {i \in 1..Len(d) : RLt(0, d[i])}}
AtLevel(d, v)   == {i \in 1..Len(d) : d[i] = v}
=============================================================================
