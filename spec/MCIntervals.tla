---------------------------- MODULE MCIntervals ----------------------------
(* Exhaustive check, over a grid of N points, that the implementation's     *)
(* algorithms on representations compute the set operations on cells.       *)
EXTENDS Intervals, TLC
CONSTANTS N, K       \* grid points, maximal number of constituents
VARIABLE s

Lits == {iv \in [lo : 0..N, hi : 1..(N + 1), l : {1, 2}, r : {1, 2}] :
            /\ iv.lo <= iv.hi
            /\ (iv.lo = 0 => iv.l = 2) /\ (iv.hi = N + 1 => iv.r = 2)}

(* A register machine in the small: a set is built up constituent by        *)
(* constituent; every representation reached is simplified and compared.    *)
Init == s = <<>>
AddConstituent == /\ Len(s) < K
                  /\ \E iv \in Lits : s' = Append(s, iv)
Next == AddConstituent
Spec == Init /\ [][Next]_s

SimplifyCorrect == AlgSimplify(N, s, LowKey) = Canon(N, Denote(N, s))
DifferenceCorrect ==
    Len(s) = 2 => /\ Denote(N, AlgDiff(N, s[1], s[2])) = IvCells(N, s[1]) \ IvCells(N, s[2])
                  /\ \A iv \in SetOfSeq(AlgDiff(N, s[1], s[2])) : iv.lo <= iv.hi
CanonFaithful == Denote(N, Canon(N, Denote(N, s))) = Denote(N, s)
ContiguousFaithful ==
    Len(s) = 2 /\ ~IvEmpty(N, s[1]) /\ ~IvEmpty(N, s[2])
        => (AlgContiguous(s[1], s[2]) <=> Contiguous(IvCells(N, s[1]), IvCells(N, s[2])))
ChopPartitions ==
    LET S == Denote(N, s)
        pts == {2 * k - 1 : k \in 1..N}
        c == ChopRuns(N, S, pts)
    IN /\ Denote(N, c) = S
       /\ \A i, j \in 1..Len(c) : i < j => IvCells(N, c[i]) \cap IvCells(N, c[j]) = {}
=============================================================================
