--------------------------- MODULE VarMapMachine ---------------------------
EXTENDS VarMap, TLC, Json
CONSTANTS NVars, K
VARIABLES reg,     \* register -> [m, known], <<>> if unset
          store,   \* reference -> content
          fresh, op, prev
mvars == <<reg, store, fresh, op, prev>>
Regs == 1..K
Vs == 1..NVars
Held == {r \in Regs : reg[r] # <<>>}
MInit == reg = [r \in Regs |-> <<>>] /\ store = <<>> /\ fresh = 1 /\ op = [op |-> "none"] /\ prev = reg
Put(t, m, known, o) == reg' = [reg EXCEPT ![t] = [m |-> m, known |-> known]] /\ op' = o /\ prev' = reg
Alloc(c) == store' = Append(store, c) /\ fresh' = fresh + 1
Same_ == UNCHANGED <<store, fresh>>
New(t, known) == Same_ /\ Put(t, <<>>, known, [op |-> "new", t |-> t, known |-> known])
Set(t, v, how, c) == IF how = "var" \/ v \in reg[t].known
     THEN Alloc(c) /\ Put(t, Assign(reg[t].m, v, fresh), reg[t].known \cup {v}, [op |-> "set", t |-> t, v |-> v, how |-> how, c |-> c])
     ELSE Same_ /\ UNCHANGED reg /\ prev' = reg /\ op' = [op |-> "set", t |-> t, v |-> v, how |-> how, c |-> c]
Del(t, v, how) == Same_ /\ Put(t, Remove(reg[t].m, v), IF Has(reg[t].m, v) THEN reg[t].known \ {v} ELSE reg[t].known, [op |-> "del", t |-> t, v |-> v, how |-> how])
Update(t, a, how) == Same_ /\ Put(t, AssignAll(reg[t].m, reg[a].m), reg[t].known \cup reg[a].known, [op |-> "update", t |-> t, a |-> a, how |-> how])
Minus(t, a) == Same_ /\ Put(t, RemoveAll(reg[t].m, reg[a].m), reg[t].known, [op |-> "minus", t |-> t, a |-> a])
Shallow(t, a) == Same_ /\ Put(t, reg[a].m, reg[a].known, [op |-> "copy", t |-> t, a |-> a, deep |-> FALSE])
Deep(t, a) == LET m == reg[a].m IN
     /\ store' = store \o [i \in 1..Len(m) |-> store[m[i].o]] /\ fresh' = fresh + Len(m)
     /\ Put(t, [i \in 1..Len(m) |-> [v |-> m[i].v, o |-> fresh + i - 1]], reg[a].known, [op |-> "copy", t |-> t, a |-> a, deep |-> TRUE])
Mutate(r, v) == /\ Has(reg[r].m, v) /\ store' = [store EXCEPT ![Lookup(reg[r].m, v)] = @ + 1] /\ UNCHANGED <<reg, fresh>> /\ prev' = reg
                /\ op' = [op |-> "mutate", r |-> r, v |-> v]
=============================================================================
