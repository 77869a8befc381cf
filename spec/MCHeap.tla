------------------------------- MODULE MCHeap -------------------------------
(* Every sequence of pushes, pops and deletions up to the given size and    *)
(* number of steps: the array implements the bag, its head is the least.    *)
EXTENDS HeapMachine
CONSTANT Steps
Next == next <= Steps /\ (Pop \/ (\E k \in Keys : Push(k)) \/ \E i \in 1..Len(arr) : Delete(i))
Spec == MInit /\ [][Next]_mvars
Same == Rng(arr) = bag /\ Len(arr) = Cardinality(bag)
InOrder == Ordered(arr)
HeadLeast == arr # <<>> => arr[1] \in Least(bag)
(* delivering all of it is sorting                                          *)
RECURSIVE Drain(_)
Drain(s) == IF s = <<>> THEN <<>> ELSE <<s[1].key>> \o Drain(PopFrom(s))
Sorts == LET d == Drain(arr) IN \A i \in 1..(Len(d) - 1) : d[i] <= d[i + 1]
=============================================================================
