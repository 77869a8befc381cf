----------------------------- MODULE VarMapGen -----------------------------
EXTENDS VarMapMachine
CONSTANT D
VARIABLE hist
One(S) == {RandomElement(S)}
Step == \E c \in One(IF Held = {} THEN {1} ELSE 1..16), t \in One(Regs), v \in One(Vs), w \in One(Vs), n \in One(0..3), how \in One({"var", "name", "twin"}),
           k \in One(SUBSET Vs), a \in One(IF Held = {} THEN Regs ELSE Held), b \in One(IF Held = {} THEN Regs ELSE Held) :
        CASE c \in {1} -> New(t, k)
          [] c \in 2..6 -> Set(a, v, how, n)
          [] c \in {7, 8} -> Del(a, v, how)
          [] c \in {9, 10} -> Update(a, b, IF n < 2 THEN "update" ELSE "iadd")
          [] c = 11 -> Minus(a, b)
          [] c \in {12, 13} -> Shallow(t, a)
          [] c = 14 -> Deep(t, a)
          [] OTHER -> LET ks == {x \in Vs : Has(reg[a].m, x)} IN IF ks = {} THEN New(t, k) ELSE \E x \in One(ks) : Mutate(a, x)
Next == /\ Len(hist) < D /\ Step /\ hist' = Append(hist, op')
        /\ (Len(hist') = D => PrintT("@@H|" \o ToJson([k |-> K, nv |-> NVars, ops |-> hist'])))
Spec == MInit /\ hist = <<>> /\ [][Next]_<<mvars, hist>>
=============================================================================
