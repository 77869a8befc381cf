------------------------------ MODULE MassGen ------------------------------
(* Simulated behaviours of the machine: every simulation run of depth D     *)
(* yields one history of operations, which is replayed on the               *)
(* implementation.  One(S) is a singleton with a random element of S        *)
(* (quantifying over it fixes the choice).                                  *)
EXTENDS MassMachine
CONSTANT D
VARIABLE hist
One(S) == {RandomElement(S)}
RandLit(style) == {[i \in 1..(2 * N - 1) |->
    IF i % 2 = 0 THEN RandomElement(IF style = 3 THEN {0} ELSE {0, 1, 2, 5})       \* gaps
    ELSE IF style = 1 THEN 0 ELSE RandomElement(0..3)]}                            \* jumps
Total(f) == RSum([i \in 1..(2 * N - 1) |-> f[i]])
PutLit(t, f) == IF REq(Total(f), 0) THEN Imp(t, 1)
                ELSE Put(t, [i \in 1..NCells(N) |-> IF i \in {1, NCells(N)} THEN "0" ELSE RDiv(f[i - 1], Total(f))],
                         [op |-> "literal", t |-> t, m |-> f])
RandIvs(k) == {[i \in 1..k |-> RandomElement(Lits)]}
GInit == MInit /\ hist = <<>>
Free == IF Held = Regs THEN Regs ELSE Regs \ Held
Step ==
    \E c \in One(IF Held = {} THEN {1} ELSE 1..13), t \in One(Regs), u \in One(Free), a \in One(IF Held = {} THEN Regs ELSE Held),
       b \in One(IF Held = {} THEN Regs ELSE Held) :
       CASE c \in {1, 2} -> \E style \in One(1..3) : \E f \in RandLit(style) : PutLit(u, f)
         [] c = 3 -> \E k \in One(1..N) : Imp(t, k)
         [] c \in {4, 5, 6} -> \E k \in One({1, 1, 2, 3}) : \E ivs \in RandIvs(k) : Crop(t, a, Denote(N, ivs), ivs)
         [] c = 7 -> \E k \in One(1..N) : IF ENABLED CropPoint(t, a, k) THEN CropPoint(t, a, k) ELSE Dup(t, a, "copy")
         [] c \in {8, 9} -> \E w \in One(Half \cup {<<"1/1024", "1023/1024">>, <<"511/512", "1/512">>}) : Merge(t, a, b, w)
         [] c \in {10, 11} -> \E w \in One({"0", "1/2", "1/8", "3/4", "1", "1/1024"}) : Update(a, b, w)
         [] c = 12 -> \E how \in One({"copy", "json", "pickle"}) : Dup(t, a, how)
         [] c = 13 -> \E i \in One(1..(N - 1)) : \E j \in One((i + 1)..N) : \E p \in One(j..N) : \E q \in One(p..N) :
                      \E w \in One({"l", "r", "b"}), m \in One({1, 2, 5}) :
                      IF w = "b" /\ j < p /\ p < q THEN Convex(a, i, j, p, q, m)
                      ELSE IF w = "r" /\ p < q THEN Convex(a, 0, 0, p, q, m)
                      ELSE Convex(a, i, j, 0, 0, m)
Next == /\ Len(hist) < D
        /\ Step
        /\ hist' = Append(hist, op')
        /\ (Len(hist') = D => PrintT("@@H|" \o ToJson([n |-> N, k |-> K, ops |-> hist'])))
Spec == GInit /\ [][Next]_<<mvars, hist>>
=============================================================================
