----------------------------- MODULE Intervals -----------------------------
(* Sets of reals over a grid of n points, abstracted to cells: cell 2k-1 is *)
(* the k-th grid point, cells 2k-2 and 2k are the open gaps to its left and *)
(* right (0 and 2n are unbounded).  An interval literal is a record         *)
(* [lo, hi, l, r]: lo, hi are grid indices (0 = -infinity, n+1 = +infinity),*)
(* l, r are 1 for a closed and 2 for an open end.  Everything that can be   *)
(* observed of a set whose bounds lie on the grid is a function of its set  *)
(* of cells.                                                                *)
EXTENDS Integers, Sequences, FiniteSets

AllCells(n) == 0..(2 * n)

FirstCell(n, iv) == IF iv.lo = 0 THEN 0 ELSE IF iv.l = 1 THEN 2 * iv.lo - 1 ELSE 2 * iv.lo
LastCell(n, iv)  == IF iv.hi = n + 1 THEN 2 * n ELSE IF iv.r = 1 THEN 2 * iv.hi - 1 ELSE 2 * iv.hi - 2
IvCells(n, iv)   == FirstCell(n, iv)..LastCell(n, iv)
Denote(n, ivs)   == UNION {IvCells(n, ivs[i]) : i \in 1..Len(ivs)}
OnGrid(n, ivs)   == \A i \in 1..Len(ivs) : ivs[i].lo \in 0..(n + 1) /\ ivs[i].hi \in 0..(n + 1)

(* The canonical representation: the maximal runs of cells, in order.       *)
Starts(S) == {c \in S : c - 1 \notin S}
RunEnd(S, c) == CHOOSE e \in S : e >= c /\ e + 1 \notin S /\ \A k \in c..e : k \in S
CellsToIv(n, s, e) ==
    [lo |-> (s + 1) \div 2, l |-> IF s % 2 = 1 THEN 1 ELSE 2,
     hi |-> IF e % 2 = 1 THEN (e + 1) \div 2 ELSE e \div 2 + 1, r |-> IF e % 2 = 1 THEN 1 ELSE 2]
RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>>
                ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o SortedSeq(S \ {m})
Canon(n, S) == LET st == SortedSeq(Starts(S)) IN [i \in 1..Len(st) |-> CellsToIv(n, st[i], RunEnd(S, st[i]))]

SetOfSeq(s) == {s[i] : i \in 1..Len(s)}
Complement(n, S)  == AllCells(n) \ S
Mirror(n, S)      == {2 * n - c : c \in S}
IsRun(S)          == S # {} /\ Cardinality(Starts(S)) = 1
Contiguous(A, B)  == A \cap B = {} /\ IsRun(A) /\ IsRun(B) /\ IsRun(A \cup B)
ProperlyInside(B, A) == /\ B \subseteq A
                        /\ \E x \in A : \A y \in B : x < y
                        /\ \E x \in A : \A y \in B : x > y
(* Number of reals in the set: -1 stands for infinitely many.               *)
Size(S) == IF \A c \in S : c % 2 = 1 THEN Cardinality(S) ELSE -1

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y

(* Chopping a set at points: each cut ends right before the point, and the  *)
(* point itself starts the remainder.  Points outside the set, and cuts     *)
(* that would leave an empty piece, do nothing.  pts: set of cells.         *)
ChopRuns(n, S, pts) ==
    LET cuts == Starts(S) \cup {p \in pts : p \in S}
        st == SortedSeq(cuts)
        end(c) == CHOOSE e \in S : /\ e >= c /\ \A k \in c..e : k \in S
                                   /\ (e + 1 \notin S \/ e + 1 \in cuts)
                                   /\ \A k \in (c + 1)..e : k \notin cuts
    IN [i \in 1..Len(st) |-> CellsToIv(n, st[i], end(st[i]))]

(* ------------------------------------------------------------------------ *)
(* The algorithms of the implementation, on representations (sequences of   *)
(* interval literals).  MCIntervals checks that they compute the set        *)
(* operations above, for all inputs of bounded size.                        *)
IvEmpty(n, iv) == IvCells(n, iv) = {}
EmptyIv == [lo |-> 1, hi |-> 1, l |-> 2, r |-> 2]
Flip(x) == 3 - x

(* ContinuousSet.difference; a sequence of one or two literals.             *)
AlgDiff(n, a, b) ==
    LET A == IvCells(n, a)
        B == IvCells(n, b)
    IN IF B = {} THEN <<a>>
       ELSE IF A # {} /\ A \subseteq B THEN <<EmptyIv>>
       ELSE IF A # {} /\ B \subseteq A /\ FirstCell(n, a) # FirstCell(n, b) /\ LastCell(n, a) # LastCell(n, b)
            THEN <<[lo |-> a.lo, l |-> a.l, hi |-> b.lo, r |-> Flip(b.l)],
                   [lo |-> b.hi, l |-> Flip(b.r), hi |-> a.hi, r |-> a.r]>>
       ELSE IF A \cap B # {}
            THEN IF LastCell(n, b) \in A /\ LastCell(n, a) # LastCell(n, b)
                 THEN <<[lo |-> b.hi, l |-> Flip(b.r), hi |-> a.hi, r |-> a.r]>>
                 ELSE <<[lo |-> a.lo, l |-> a.l, hi |-> b.lo, r |-> Flip(b.l)]>>
       ELSE <<a>>

RECURSIVE DiffEach(_, _, _)
DiffEach(n, s, b) == IF s = <<>> THEN <<>> ELSE AlgDiff(n, Head(s), b) \o DiffEach(n, Tail(s), b)

(* RealSet.simplify: make disjoint, sort by key, merge contiguous pieces.   *)
RECURSIVE MakeDisjoint(_, _)
MakeDisjoint(n, s) ==
    IF s = <<>> THEN <<>>
    ELSE (IF IvEmpty(n, Head(s)) THEN <<>> ELSE <<Head(s)>>)
         \o MakeDisjoint(n, DiffEach(n, Tail(s), Head(s)))

LowKey == "low"
UppKey == "upper"        \* the key in use at the pinned commit: wrong for {1} and (0,1)
KeyOf(n, iv, key) == IF key = LowKey THEN FirstCell(n, iv) ELSE iv.hi
RECURSIVE InsertBy(_, _, _, _)
InsertBy(n, x, s, key) ==      \* stable insertion
    IF s = <<>> THEN <<x>>
    ELSE IF KeyOf(n, x, key) <= KeyOf(n, Head(s), key) THEN <<x>> \o s
    ELSE <<Head(s)>> \o InsertBy(n, x, Tail(s), key)
RECURSIVE SortBy(_, _, _)
SortBy(n, s, key) == IF s = <<>> THEN <<>> ELSE InsertBy(n, Head(s), SortBy(n, Tail(s), key), key)

AlgContiguous(a, b) == \/ a.lo = b.hi /\ b.r + a.l = 3
                       \/ a.hi = b.lo /\ a.r + b.l = 3
RECURSIVE MergeAdjacent(_)
MergeAdjacent(s) ==
    IF Len(s) <= 1 THEN s
    ELSE IF AlgContiguous(s[1], s[2])
         THEN MergeAdjacent(<<[s[1] EXCEPT !.hi = s[2].hi, !.r = s[2].r]>> \o SubSeq(s, 3, Len(s)))
         ELSE <<s[1]>> \o MergeAdjacent(Tail(s))

AlgSimplify(n, s, key) == MergeAdjacent(SortBy(n, MakeDisjoint(n, s), key))
=============================================================================
