------------------------------ MODULE MCVarMap ------------------------------
(* All short histories over two maps and two variables.                     *)
EXTENDS VarMapMachine
CONSTANT Steps
VARIABLE step
Next == /\ step < Steps /\ step' = step + 1
        /\ \/ \E t \in Regs \ Held : \E k \in SUBSET Vs : New(t, k)
           \/ \E t \in Held, v \in Vs : \/ \E how \in {"var", "name"} : Set(t, v, how, 0)
                                        \/ Has(reg[t].m, v) /\ Del(t, v, "var")
                                        \/ (Has(reg[t].m, v) /\ store[Lookup(reg[t].m, v)] = 0 /\ Mutate(t, v))
           \/ \E t, a \in Held : \/ Update(t, a, "update") \/ Minus(t, a)
                                 \/ Shallow(t, a) \/ Deep(t, a)
Spec == MInit /\ step = 0 /\ [][Next]_<<mvars, step>>
Functional == \A r \in Held : \A i, j \in 1..Len(reg[r].m) : reg[r].m[i].v = reg[r].m[j].v => i = j
Referable == \A r \in Held : \A i \in 1..Len(reg[r].m) : reg[r].m[i].v \in reg[r].known /\ reg[r].m[i].o \in 1..Len(store)
Contents(r) == [v \in {reg[r].m[i].v : i \in 1..Len(reg[r].m)} |-> store[Lookup(reg[r].m, v)]]
(* deep copies share nothing                                                *)
DeepFresh == op.op = "copy" => (op.deep /\ op.t # op.a =>
               /\ Contents(op.t) = Contents(op.a)
               /\ {reg[op.t].m[i].o : i \in 1..Len(reg[op.t].m)} \cap {reg[op.a].m[i].o : i \in 1..Len(reg[op.a].m)} = {})
UpdateWins == op.op = "update" => \A v \in Vs : Has(prev[op.a].m, v) => Has(reg[op.t].m, v) /\ Lookup(reg[op.t].m, v) = Lookup(prev[op.a].m, v)
MinusGone == op.op = "minus" => \A v \in Vs : Has(reg[op.t].m, v) <=> Has(prev[op.t].m, v) /\ ~Has(prev[op.a].m, v)
(* an operation on one register leaves the others alone                     *)
Local == op.op \notin {"none", "mutate"} => \A r \in Regs : r # op.t => reg[r] = prev[r]
=============================================================================
