---------------------------- MODULE IntervalGen ----------------------------
(* Generates, exhaustively, one history per pair of representations over a  *)
(* grid of N points: the left one with up to KA constituents, the right one *)
(* with up to KB; in both the ContinuousSet and RealSet guise.              *)
EXTENDS Intervals, TLC, Json
CONSTANTS N, KA, KB
VARIABLES a, b, done
Lits == {iv \in [lo : 0..N, hi : 1..(N + 1), l : {1, 2}, r : {1, 2}] :
            /\ iv.lo <= iv.hi
            /\ (iv.lo = 0 => iv.l = 2) /\ (iv.hi = N + 1 => iv.r = 2)}
Reps(k) == UNION {[1..j -> Lits] : j \in 1..k}
Init == a \in Reps(KA) /\ b \in Reps(KB) /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<a, b>>
        /\ PrintT("@@H|" \o ToJson([n |-> N, a |-> a, b |-> b]))
Spec == Init /\ [][Next]_<<a, b, done>>
=============================================================================
