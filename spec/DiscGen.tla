------------------------------ MODULE DiscGen ------------------------------
(* Simulated behaviours of the machine, one history per run of length D.    *)
EXTENDS DiscMachine
CONSTANT D
VARIABLE hist
One(S) == {RandomElement(S)}
RandW(style) == {[i \in 1..N |-> RandomElement(IF style = 1 THEN {0, 1} ELSE IF style = 2 THEN 0..3 ELSE 0..20)]}
Positive(f) == IF Sum(f) = 0 THEN [f EXCEPT ![1] = 1] ELSE f
GInit == MInit /\ hist = <<>>
Free == IF Held = Regs THEN Regs ELSE Regs \ Held
Step == \E c \in One(IF Held = {} THEN {1} ELSE 1..14), t \in One(Regs), u \in One(Free), a \in One(IF Held = {} THEN Regs ELSE Held),
           b \in One(IF Held = {} THEN Regs ELSE Held) :
           CASE c \in {1, 2, 3} -> \E st \in One(1..3) : \E f \in RandW(st) : \E how \in One({"set", "fit"}) : Set(u, Positive(f), how)
             [] c = 4 -> \E k \in One(1..N) : Imp(t, a, k)
             [] c \in {5, 6, 7, 8} -> \E x \in One(SUBSET (1..N)) : \E k \in One(1..N) : \E s \in One({1, 2, 3}) : Crop(t, a, IF s = 1 THEN {k} ELSE x)
             [] c \in {9, 10} -> \E w \in One(Weights) : Merge(t, a, b, w)
             [] c \in {11, 12} -> \E w \in One({"0", "1/2", "1/8", "3/4", "1", "1/1024"}) : Update(a, b, w)
             [] c \in {13, 14} -> \E how \in One({"copy", "json", "typed"}) : Dup(t, a, how)
Next == /\ Len(hist) < D
        /\ Step
        /\ hist' = Append(hist, op')
        /\ (Len(hist') = D => PrintT("@@H|" \o ToJson([n |-> N, k |-> K, ops |-> hist'])))
Spec == GInit /\ [][Next]_<<mvars, hist>>
=============================================================================
