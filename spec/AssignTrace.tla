---------------------------- MODULE AssignTrace ----------------------------
(* Histories over a pool of assignments of labels or of internal values to  *)
(* variables, and of the domains' conversions.  A content is [k: "scalar",  *)
(* "set", or "bad" (not a union of cells), s: set of indices]: cells of the *)
(* grid for numeric variables, labels in order for others.  The index of a  *)
(* label and of the value it stands for are the same, so converting changes *)
(* the space and nothing else.                                              *)
EXTENDS TraceBase, VarMap, Intervals
VARIABLE reg
vars == <<h, l, reg>>
V == H.V
Vs == 1..Len(V)
Init == h \in 1..Len(Hist) /\ l = 0 /\ reg = [r \in 1..H.k |-> <<>>]
Content(v, j) == IF j.t = "pt" THEN [k |-> "scalar", s |-> {2 * j.k}]
                 ELSE IF j.t = "one" THEN [k |-> "scalar", s |-> SetOf(j.s)]
                 ELSE IF j.t = "lab" THEN [k |-> "set", s |-> SetOf(j.s)]
                 ELSE [k |-> "set", s |-> {c + 1 : c \in Denote(V[v].n, j.ivs)}]
Val(o) == [k |-> o.k, s |-> SetOf(o.s)]
Ob(o) == [space |-> o.space, m |-> [i \in 1..Len(o.m) |-> [v |-> o.m[i].v, o |-> Val(o.m[i].o)]]]
Agrees(c, r, want) == Chk(c, Ob(E.regs[r]) = want, <<E.op, r, Ob(E.regs[r]), want>>)
Others(t) == \A r \in 1..H.k : r # t /\ reg[r] # <<>> => Agrees("C20.others-unchanged", r, reg[r])
Becomes(c, t, want) == Agrees(c, t, want) /\ Others(t) /\ reg' = [reg EXCEPT ![t] = want]
Stays == (\A r \in 1..H.k : reg[r] # <<>> => Agrees("C20.others-unchanged", r, reg[r])) /\ UNCHANGED reg
Fine == Chk("C20.assignment-raises", E.exc = "", <<E.op, E.exc>>)
Pairs(ps) == AssignAll(<<>>, [i \in 1..Len(ps) |-> [v |-> ps[i].v, o |-> Content(ps[i].v, ps[i].c)]])
New  == IsEvent("new") /\ Fine /\ Becomes("C20.assignment", E.t, [space |-> E.space, m |-> Pairs(E.pairs)])
Set  == IsEvent("set") /\ Fine /\ Becomes("C20.assignment", E.t, [reg[E.t] EXCEPT !.m = Assign(@, E.v, Content(E.v, E.c))])
Bad  == IsEvent("bad") /\ Chk("C20.illegal-value", E.exc \in {"TypeError", "ValueError"}, <<E.v, E.exc, E.what>>) /\ Stays
Conv == IsEvent("conv") /\ Fine /\ Becomes("C20.conversion", E.t, [reg[E.a] EXCEPT !.space = IF @ = "label" THEN "value" ELSE "label"])
Sets == IsEvent("sets") /\ Fine /\ Becomes("C20.scalars-to-sets", E.t, [reg[E.a] EXCEPT !.m = [i \in 1..Len(@) |-> [@[i] EXCEPT !.o.k = "set"]]])
Dup  == IsEvent("copy") /\ Fine /\ Becomes("C20.assignment-copy", E.t, reg[E.a])
Json_ == IsEvent("json") /\ Chk("C16.assignment-raises", E.exc = "", <<E.exc, reg[E.a]>>)
         /\ IF E.exc = "" THEN Becomes("C16.assignment", E.t, reg[E.a]) ELSE reg' = [reg EXCEPT ![E.t] = <<>>]
Pair == /\ IsEvent("pair") /\ Fine /\ Stays
        /\ Chk("C20.assignment-equal", E.eq = (reg[E.a].space = reg[E.b].space /\ AsSet(reg[E.a].m) = AsSet(reg[E.b].m)), <<E.eq, reg[E.a], reg[E.b]>>)
        /\ Chk("C20.assignment-hash", E.eq => E.hash, <<reg[E.a], reg[E.b]>>)
(* a label, its value and back, by the domain of variable v                 *)
Dom  == /\ IsEvent("dom") /\ Stays
        /\ Chk("C24.raises", E.exc = "", <<E.v, E.c, E.exc>>)
        /\ (E.exc = "" =>
            /\ Chk("C24.values", Val(E.val) = Content(E.v, E.c), <<E.v, E.c, E.val>>)
            /\ Chk("C24.labels", Val(E.lab) = Content(E.v, E.c), <<E.v, E.c, E.lab>>)
            /\ Chk("C24.argument-unchanged", E.args, E.c)
            /\ Chk("C24.order", \A i \in 1..(Len(E.line) - 1) : RLt(E.line[i], E.line[i + 1]), E.line))
Lost == IF E.op \in {"set", "bad"} THEN reg[E.t] = <<>>
        ELSE IF E.op \in {"conv", "sets", "copy", "json"} THEN reg[E.a] = <<>>
        ELSE E.op = "pair" /\ (reg[E.a] = <<>> \/ reg[E.b] = <<>>)
Skip == l < Len(Ev) /\ l' = l + 1 /\ UNCHANGED h /\ reg' = IF E.op \in {"conv", "sets", "copy", "json"} THEN [reg EXCEPT ![E.t] = <<>>] ELSE reg
Next == l < Len(Ev) /\ IF Lost THEN Skip ELSE (New \/ Set \/ Bad \/ Conv \/ Sets \/ Dup \/ Json_ \/ Pair \/ Dom)
Spec == Init /\ [][Next]_vars
=============================================================================
