-------------------------------- MODULE Mass --------------------------------
(* Univariate distributions over the reals whose density is constant        *)
(* between neighbouring points of a grid and that may have jumps (values of *)
(* positive probability) at grid points: a distribution is the sequence of  *)
(* the masses of the 2n+1 cells of module Intervals (gaps and points), and  *)
(* a mass sequence together with the positions of the grid points fixes the *)
(* distribution.  Exact rational arithmetic throughout.                     *)
EXTENDS Integers, Sequences, FiniteSets, Rat, Intervals

NCells(n) == 2 * n + 1
Zeros(n)  == [i \in 1..NCells(n) |-> "0"]
(* Mass of a set of cells.                                                  *)
MassOf(d, S) == RSum([i \in 1..Len(d) |-> IF (i - 1) \in S THEN d[i] ELSE "0"])
IsDist(d, tol) == /\ \A i \in 1..Len(d) : RLe(RNeg(tol), d[i])
                  /\ RClose(RSum(d), 1, tol)
                  /\ RClose(d[1], 0, tol) /\ RClose(d[Len(d)], 0, tol)

Impulse(n, k)   == [Zeros(n) EXCEPT ![2 * k] = "1"]
(* uniform between grid points i < j, given the positions of the points     *)
UniformOn(G, i, j) ==
    LET n == Len(G) w == RSub(G[j], G[i]) IN
    [c \in 1..NCells(n) |-> IF c % 2 = 1 /\ (c - 1) \div 2 >= i /\ (c - 1) \div 2 < j
                            THEN RDiv(RSub(G[(c - 1) \div 2 + 1], G[(c - 1) \div 2]), w) ELSE "0"]

(* Conditioning on a set of positive mass, and mixing.                      *)
CropTo(d, S) == LET p == MassOf(d, S) IN
                [i \in 1..Len(d) |-> IF (i - 1) \in S THEN RDiv(d[i], p) ELSE "0"]
Mix(ds, ws)  == [i \in 1..Len(ds[1]) |-> RDot(ws, [k \in 1..Len(ds) |-> ds[k][i]])]

(* The views.                                                               *)
CdfAt(d, k)   == RSum(SubSeq(d, 1, 2 * k))              \* P(X <= G[k])
CdfLeft(d, k) == RSum(SubSeq(d, 1, 2 * k - 1))          \* P(X <  G[k])
Dens(d, G, k) == IF k = 0 \/ k = Len(G) THEN "0"        \* slope in the gap right of point k
                 ELSE RDiv(d[2 * k + 1], RSub(G[k + 1], G[k]))
(* P(X <= x) and P(X < x) at any x                                          *)
GapOf(G, x) == Cardinality({k \in 1..Len(G) : RLe(G[k], x)})     \* grid points at or left of x
CdfX(d, G, x) == LET k == GapOf(G, x) IN
    IF k = 0 THEN d[1]
    ELSE IF k = Len(G) THEN RSum(d)
    ELSE RAdd(CdfAt(d, k), RMul(Dens(d, G, k), RSub(x, G[k])))
CdfXLeft(d, G, x) == LET k == GapOf(G, x) IN
    IF k > 0 /\ REq(G[k], x) THEN CdfLeft(d, k) ELSE CdfX(d, G, x)

(* Moments: Sum over jumps, plus the integral of the constant densities.    *)
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN "1" ELSE RMul(x, Pow(x, k - 1))
Moment(d, G, k, c) ==
    RAdd(RSum([j \in 1..Len(G) |-> IF d[2 * j] = "0" THEN "0" ELSE RMul(d[2 * j], Pow(RSub(G[j], c), k))]),
         RSum([j \in 1..(Len(G) - 1) |->
               IF d[2 * j + 1] = "0" THEN "0" ELSE
               RDiv(RMul(d[2 * j + 1], RSub(Pow(RSub(G[j + 1], c), k + 1), Pow(RSub(G[j], c), k + 1))),
                    RMul(k + 1, RSub(G[j + 1], G[j])))]))
Mean(d, G) == Moment(d, G, 1, "0")
Var(d, G)  == Moment(d, G, 2, Mean(d, G))

(* The densities from the most to the least probable, each with the gaps    *)
(* where it is attained.                                                    *)
MaxOf(S) == CHOOSE x \in S : \A y \in S : RLe(y, x)
DensLevels(d, G, tol) == {Dens(d, G, k) : k \in {k \in 1..(Len(G) - 1) : RLt(tol, Dens(d, G, k))}}
IsImpulse(d) == \E k \in 1..((Len(d) - 1) \div 2) : \A i \in 1..Len(d) : REq(d[i], IF i = 2 * k THEN 1 ELSE 0)

(* Overlap of two distributions without jumps: shared over joint area.      *)
Jaccard(d, e) == RDiv(RSum([i \in 1..Len(d) |-> RMin(d[i], e[i])]), RSum([i \in 1..Len(d) |-> RMax(d[i], e[i])]))
=============================================================================
