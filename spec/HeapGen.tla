------------------------------ MODULE HeapGen ------------------------------
EXTENDS HeapMachine
CONSTANT D
VARIABLE hist
One(S) == {RandomElement(S)}
Step == \E c \in One(IF Len(arr) >= MaxSize THEN 5..12 ELSE IF Len(arr) < 3 THEN 1..7 ELSE 1..12) :
          CASE c \in 1..6 -> IF Len(arr) >= MaxSize THEN Pop ELSE \E k \in One(Keys) : Push(k)
            [] c \in 7..8 -> Pop
            [] OTHER -> IF arr = <<>> THEN Pop ELSE \E i \in One(1..Len(arr)) : Delete(i)
Next == /\ Len(hist) < D /\ Step /\ hist' = Append(hist, op')
        /\ (Len(hist') = D => PrintT("@@H|" \o ToJson([ops |-> hist'])))
Spec == MInit /\ hist = <<>> /\ [][Next]_<<mvars, hist>>
=============================================================================
