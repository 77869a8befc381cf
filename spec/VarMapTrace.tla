---------------------------- MODULE VarMapTrace ----------------------------
(* Histories over a pool of variable maps.  Every event has all registers   *)
(* after it: keys and values in the order of iteration, what can be         *)
(* referred to by name, the length, the truth value, what is contained.     *)
EXTENDS TraceBase, VarMap
VARIABLES reg, store
vars == <<h, l, reg, store>>
Init == h \in 1..Len(Hist) /\ l = 0 /\ reg = [r \in 1..H.k |-> <<>>] /\ store = <<>>
Vs == 1..H.nv
Obs(r) == E.regs[r]
(* register r holds the map m with the contents st; known is between low    *)
(* and high                                                                 *)
Agrees(r, m, low, high, st) ==
    /\ Chk("C20.keys", Obs(r).keys = KeysOf(m), <<E.op, r, Obs(r), m>>)
    /\ Chk("C20.values", Obs(r).vals = [i \in 1..Len(m) |-> st[m[i].o]], <<E.op, r, Obs(r), m, st>>)
    /\ Chk("C20.length", Obs(r).len = Len(m) /\ Obs(r).truth = (Len(m) > 0), <<E.op, r, Obs(r)>>)
    /\ Chk("C20.membership", SetOf(Obs(r).isin) = {v \in Vs : Has(m, v)} /\ SetOf(Obs(r).named) = {v \in Vs : Has(m, v)}, <<E.op, r, Obs(r), m>>)
    /\ Chk("C20.lookup", Obs(r).got = [i \in 1..Len(m) |-> st[m[i].o]] /\ Obs(r).gotn = Obs(r).got, <<E.op, r, Obs(r), m, st>>)
    /\ Chk("C20.known", low \subseteq SetOf(Obs(r).known) /\ SetOf(Obs(r).known) \subseteq high, <<E.op, r, Obs(r).known, low, high>>)
Knowing(r) == reg[r].known
(* only register t changes, to m; the contents are st                       *)
Becomes(t, m, low, high, st) ==
    /\ \A r \in 1..H.k : IF r = t THEN Agrees(r, m, low, high, st)
                         ELSE reg[r] # <<>> => Agrees(r, reg[r].m, Knowing(r), Knowing(r), st)
    /\ reg' = [r \in 1..H.k |-> IF r = t THEN [m |-> m, known |-> SetOf(Obs(t).known)] ELSE reg[r]]
    /\ store' = st
Stays == /\ \A r \in 1..H.k : reg[r] # <<>> => Agrees(r, reg[r].m, Knowing(r), Knowing(r), store)
         /\ UNCHANGED <<reg, store>>
Fine == Chk("C20.raises", E.exc = "", <<E.op, E.exc>>)
Raises(x) == Chk("C20.error", E.exc = x, <<E.op, E.exc, x>>)
MapOf(t) == reg[t].m

New == /\ IsEvent("new") /\ Fine
       /\ LET n == Len(store) m == AssignAll(<<>>, [i \in 1..Len(E.pairs) |-> [v |-> E.pairs[i].v, o |-> n + i]])
              k == SetOf(E.known) \cup {m[i].v : i \in 1..Len(m)}
          IN Becomes(E.t, m, k, k, store \o [i \in 1..Len(E.pairs) |-> E.pairs[i].c])
Set == /\ IsEvent("set")
       /\ IF E.how = "name" /\ E.v \notin Knowing(E.t) THEN Raises("ValueError") /\ Stays
          ELSE /\ Fine
               /\ LET m == Assign(MapOf(E.t), E.v, Len(store) + 1) k == Knowing(E.t) \cup {E.v} IN Becomes(E.t, m, k, k, Append(store, E.c))
Del == /\ IsEvent("del")
       /\ IF ~Has(MapOf(E.t), E.v) THEN Raises("KeyError") /\ Stays
          ELSE Fine /\ Becomes(E.t, Remove(MapOf(E.t), E.v), Knowing(E.t) \ {E.v}, Knowing(E.t), store)
Update == /\ IsEvent("update") /\ Fine
          /\ LET m == AssignAll(MapOf(E.t), MapOf(E.a)) IN
             Becomes(E.t, m, Knowing(E.t) \cup {m[i].v : i \in 1..Len(m)}, Knowing(E.t) \cup Knowing(E.a), store)
Minus == /\ IsEvent("minus") /\ Fine
         /\ LET m == RemoveAll(MapOf(E.t), MapOf(E.a)) IN
            Becomes(E.t, m, Knowing(E.t) \ {MapOf(E.a)[i].v : i \in 1..Len(MapOf(E.a))}, Knowing(E.t), store)
Copy == /\ IsEvent("copy") /\ Fine
        /\ LET m == MapOf(E.a) n == Len(store) IN
           IF E.deep THEN Becomes(E.t, [i \in 1..Len(m) |-> [v |-> m[i].v, o |-> n + i]], Knowing(E.a), Knowing(E.a), store \o [i \in 1..Len(m) |-> store[m[i].o]])
           ELSE Becomes(E.t, m, Knowing(E.a), Knowing(E.a), store)
(* a restored map knows at least its own variables                          *)
Json_ == /\ IsEvent("json") /\ Fine
         /\ LET m == MapOf(E.a) n == Len(store) IN
            Becomes(E.t, [i \in 1..Len(m) |-> [v |-> m[i].v, o |-> n + i]], {m[i].v : i \in 1..Len(m)}, Vs, store \o [i \in 1..Len(m) |-> store[m[i].o]])
Mutate == /\ IsEvent("mutate")
          /\ LET st == [store EXCEPT ![Lookup(MapOf(E.r), E.v)] = E.c] IN
             /\ \A r \in 1..H.k : reg[r] # <<>> => Agrees(r, MapOf(r), Knowing(r), Knowing(r), st)
             /\ store' = st /\ UNCHANGED reg
Get == /\ IsEvent("get") /\ Stays
       /\ LET m == MapOf(E.r) IN
          /\ Chk("C20.get", E.gexc = "" /\ E.get = (IF Has(m, E.v) THEN store[Lookup(m, E.v)] ELSE E.def), <<E.get, E.gexc, E.v, m>>)
          /\ Chk("C20.item", IF Has(m, E.v) THEN E.exc = "" /\ E.item = store[Lookup(m, E.v)] ELSE E.exc = "KeyError", <<E.item, E.exc, E.v, m>>)
Bindings(m) == {<<m[i].v, store[m[i].o]>> : i \in 1..Len(m)}
Pair == /\ IsEvent("pair") /\ Stays /\ Fine
        /\ LET same == Bindings(MapOf(E.a)) = Bindings(MapOf(E.b)) IN
           /\ Chk("C20.equal", IF ~same THEN ~E.eq ELSE Knowing(E.a) = Knowing(E.b) => E.eq, <<E.eq, MapOf(E.a), MapOf(E.b)>>)
           /\ Chk("C20.unequal", E.ne = ~E.eq, E.ne)
           /\ Chk("C20.hash", E.eq => E.hash, E.hash)
Next == New \/ Set \/ Del \/ Update \/ Minus \/ Copy \/ Json_ \/ Mutate \/ Get \/ Pair
Spec == Init /\ [][Next]_vars
=============================================================================
