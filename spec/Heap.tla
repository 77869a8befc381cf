-------------------------------- MODULE Heap --------------------------------
(* A priority queue of elements [id, key], as the bag it is (here a set:    *)
(* ids are unique), and the binary heap that implements it.                 *)
EXTENDS Integers, Sequences, FiniteSets
Least(B) == {x \in B : \A y \in B : x.key <= y.key}
Rng(s) == {s[i] : i \in 1..Len(s)}

(* the array form: position 1 is the root, children of i at 2i and 2i + 1   *)
Ordered(s) == \A i \in 2..Len(s) : s[i \div 2].key <= s[i].key
Swap(s, i, j) == [s EXCEPT ![i] = s[j], ![j] = s[i]]
RECURSIVE Up(_, _), Down(_, _), Build(_, _)
Up(s, i) == IF i > 1 /\ s[i].key < s[i \div 2].key THEN Up(Swap(s, i, i \div 2), i \div 2) ELSE s
Down(s, i) == LET c == IF 2 * i + 1 <= Len(s) /\ s[2 * i + 1].key < s[2 * i].key THEN 2 * i + 1 ELSE 2 * i IN
              IF c <= Len(s) /\ s[c].key < s[i].key THEN Down(Swap(s, i, c), c) ELSE s
Build(s, i) == IF i = 0 THEN s ELSE Build(Down(s, i), i - 1)
Heapify(s) == Build(s, Len(s) \div 2)
PushTo(s, x) == Up(Append(s, x), Len(s) + 1)
PopFrom(s) == LET n == Len(s) IN IF n = 1 THEN <<>> ELSE Down([SubSeq(s, 1, n - 1) EXCEPT ![1] = s[n]], 1)
Cut(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
DeleteAt(s, i) == Heapify(Cut(s, i))
=============================================================================
