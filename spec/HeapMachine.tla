---------------------------- MODULE HeapMachine ----------------------------
(* The array and the bag side by side.                                      *)
EXTENDS Heap, TLC, Json
CONSTANTS Keys, MaxSize
VARIABLES bag, arr, next, op
mvars == <<bag, arr, next, op>>
Elem(k) == [id |-> next, key |-> k]
MInit == bag = {} /\ arr = <<>> /\ next = 1 /\ op = [op |-> "new"]
Push(k) == /\ Len(arr) < MaxSize
           /\ bag' = bag \cup {Elem(k)} /\ arr' = PushTo(arr, Elem(k)) /\ next' = next + 1
           /\ op' = [op |-> "push", id |-> next, key |-> k]
Pop == IF arr = <<>> THEN UNCHANGED <<bag, arr, next>> /\ op' = [op |-> "pop"]
       ELSE bag' = bag \ {arr[1]} /\ arr' = PopFrom(arr) /\ UNCHANGED next /\ op' = [op |-> "pop"]
Delete(i) == /\ i <= Len(arr)
             /\ bag' = bag \ {arr[i]} /\ arr' = DeleteAt(arr, i) /\ UNCHANGED next
             /\ op' = [op |-> "delete", i |-> i]
=============================================================================
