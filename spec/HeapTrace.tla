----------------------------- MODULE HeapTrace -----------------------------
(* Histories of heap operations.  Every event has the contents after it as  *)
(* they are iterated, items: sequence of [id, key].                         *)
EXTENDS TraceBase, Heap
VARIABLE was       \* the contents, as they were last iterated
vars == <<h, l, was>>
Init == h \in 1..Len(Hist) /\ l = 0 /\ was = <<>>
Bag == Rng(was)
Views == LET s == E.items IN
    /\ Chk("C21.length", E.len = Len(s) /\ E.truth = (Len(s) > 0), <<E.len, E.truth, s>>)
    /\ Chk("C21.views", E.rev = [i \in 1..Len(s) |-> s[Len(s) + 1 - i]] /\ E.at = s, <<E.at, E.rev, s>>)
    /\ Chk("C21.head", s = <<>> \/ s[1] \in Least(Rng(s)), s)
Contents(B) == Chk("C21.contents", Rng(E.items) = B /\ Len(E.items) = Cardinality(B), <<was, E.items, B>>)
Follow == was' = E.items
New    == IsEvent("new") /\ Chk("C21.raises", E.exc = "", E.exc) /\ Contents(Rng(E.data)) /\ Views /\ Follow
Push   == IsEvent("push") /\ Chk("C21.raises", E.exc = "", E.exc) /\ Contents(Bag \cup {E.x}) /\ Views /\ Follow
Pop    == /\ IsEvent("pop") /\ Views /\ Follow
          /\ IF Bag = {} THEN Chk("C21.empty", E.exc = "IndexError", E.exc) /\ Contents({})
             ELSE /\ Chk("C21.raises", E.exc = "", E.exc)
                  /\ (E.exc = "" => Chk("C21.least", E.x \in Least(Bag), <<E.x, was>>) /\ Contents(Bag \ {E.x}))
Delete == /\ IsEvent("delete") /\ Views /\ Follow
          /\ IF E.i > Len(was) THEN Chk("C21.position", E.exc = "IndexError", E.exc) /\ Contents(Bag)
             ELSE Chk("C21.raises", E.exc = "", E.exc) /\ Contents(Bag \ {was[E.i]})
(* removing an element: its position is asked for first                     *)
Remove == /\ IsEvent("remove") /\ Views /\ Follow
          /\ IF E.x \notin Bag THEN Chk("C21.missing", E.exc = "ValueError", E.exc) /\ Contents(Bag)
             ELSE Chk("C21.raises", E.exc = "", E.exc) /\ Contents(Bag \ {E.x})
(* extracting everything                                                    *)
Drain  == /\ IsEvent("drain") /\ Follow
          /\ Chk("C21.order", Rng(E.all) = Bag /\ Len(E.all) = Len(was) /\ \A i \in 1..(Len(E.all) - 1) : E.all[i].key <= E.all[i + 1].key, <<E.all, was>>)
Next == New \/ Push \/ Pop \/ Delete \/ Remove \/ Drain
Spec == Init /\ [][Next]_vars
=============================================================================
