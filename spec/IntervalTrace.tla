--------------------------- MODULE IntervalTrace ---------------------------
(* Histories of NumberSet operations over a small file of registers, as     *)
(* recorded from the implementation.  A register of the specification holds *)
(* the set (cells) and the representation the implementation last showed;   *)
(* every event carries the representations of all registers, so that an     *)
(* operation that touches anything but its target is seen.                  *)
EXTENDS TraceBase, Intervals

VARIABLE reg       \* sequence of [cells, ivs]

n == H.n
vars == <<h, l, reg>>
Unset == [cells |-> {}, ivs |-> <<>>]
Init == h \in 1..Len(Hist) /\ l = 0 /\ reg = [i \in 1..H.nregs |-> Unset]

(* membership vector of the observation: one entry per cell, 0/1; 2 when    *)
(* probes inside one cell (or the two ways to ask) disagree                 *)
Members(mem) == {c \in AllCells(n) : mem[c + 1] = 1}
Consistent(mem) == Len(mem) = 2 * n + 1 /\ \A i \in 1..Len(mem) : mem[i] \in {0, 1}

Others(t) == \A i \in 1..Len(reg) : i # t => E.regs[i] = reg[i].ivs
Purity(t) == Chk("C02.operands-unchanged", Others(t), <<"before", [i \in 1..Len(reg) |-> reg[i].ivs], "after", E.regs>>)

(* carry on with the representations as shown                               *)
Resync == reg' = [i \in 1..Len(reg) |-> [reg[i] EXCEPT !.ivs = E.regs[i]]]

Produce(t, S, canonical) ==
    /\ NoExc(E)
    /\ Purity(t)
    /\ IF E.exc # "" THEN Resync
       ELSE /\ Chk("C01.membership", Consistent(E.mem) /\ Members(E.mem) = S, <<"expected", S, "mem", E.mem>>)
            /\ (OnGrid(n, E.ivs) => Chk("C01.representation", Denote(n, E.ivs) = S, <<"expected", S, "ivs", E.ivs>>))
            /\ (canonical => Chk("C01.canonical",
                                 IF S = {} THEN Denote(n, E.ivs) = {} ELSE E.ivs = Canon(n, S),
                                 <<"expected", Canon(n, S), "ivs", E.ivs>>))
            /\ Chk("C02.stored", E.regs[t] = E.ivs, E.regs)
            /\ reg' = [i \in 1..Len(reg) |-> [cells |-> IF i = t THEN S ELSE reg[i].cells, ivs |-> E.regs[i]]]

C(i) == reg[i].cells
Make    == IsEvent("make")  /\ Produce(E.t, Denote(n, E.lit), FALSE)
Parse   == IsEvent("parse") /\ Produce(E.t, Denote(n, E.lit), FALSE)
Union_  == IsEvent("union") /\ Produce(E.t, C(E.a) \cup C(E.b), E.kind = "R")
Inter   == IsEvent("inter") /\ Produce(E.t, C(E.a) \cap C(E.b), E.kind = "R")
Diff    == IsEvent("diff")  /\ Produce(E.t, C(E.a) \ C(E.b), E.kind = "R" /\ C(E.b) # {})
Compl   == IsEvent("compl") /\ Produce(E.t, Complement(n, C(E.a)), FALSE)
Simpl   == IsEvent("simplify") /\ Produce(E.t, C(E.a), E.kind = "R")
MirrorE == IsEvent("mirror") /\ Produce(E.t, Mirror(n, C(E.a)), FALSE)
Same    == (\E o \in {"copy", "json", "pickle", "str", "round", "bounds"} : IsEvent(o)) /\ Produce(E.t, C(E.a), FALSE)
Isects  == IsEvent("isects") /\ Produce(E.t, C(E.a) \cap C(E.b), FALSE)

ChopE ==
    /\ IsEvent("chop") /\ NoExc(E) /\ Purity(0) /\ Resync
    /\ (E.exc = "" => Chk("C01.chop", E.ivs = ChopRuns(n, C(E.a), {2 * k - 1 : k \in SetOf(E.pts)}),
                          <<"expected", ChopRuns(n, C(E.a), {2 * k - 1 : k \in SetOf(E.pts)}), "got", E.ivs>>))

(* Where the least/greatest element lies: [k, "at"], [k, "above"] (just     *)
(* above grid point k), [k, "below"]                                        *)
LeastAt(S) == LET c == Min(S) IN
    IF c = 0 THEN <<0, "inf">> ELSE IF c % 2 = 1 THEN <<(c + 1) \div 2, "at">> ELSE <<c \div 2, "above">>
GreatestAt(S) == LET c == Max(S) IN
    IF c = 2 * n THEN <<0, "inf">> ELSE IF c % 2 = 1 THEN <<(c + 1) \div 2, "at">> ELSE <<c \div 2 + 1, "below">>

Pred1 ==
    LET S == C(E.a) r == E.r IN
    /\ IsEvent("pred1") /\ NoExc(E) /\ Purity(0) /\ Resync
    /\ (E.exc = "" =>
        /\ Chk("C01.isempty", r.isempty = (S = {}) /\ r.bool = (S # {}), r)
        /\ Chk("C01.size", r.size = Size(S), <<Size(S), r>>)
        /\ (S # {} => /\ Chk("C01.least", r.least = LeastAt(S), <<LeastAt(S), r.least>>)
                      /\ (E.kind = "C" => Chk("C01.greatest", r.greatest = GreatestAt(S), <<GreatestAt(S), r.greatest>>))
                      /\ Chk("C01.infinite", /\ r.ninf = (0 \in S) /\ r.pinf = (2 * n \in S)
                                             /\ r.inf = (0 \in S \/ 2 * n \in S), r)
                      /\ Chk("C01.point-inside", r.anyin, r)
                      /\ (r.sampled => Chk("C01.sample-inside", r.samplein, r)))
        /\ Chk("C01.nan-outside", ~r.nanin, r))

Pred2 ==
    LET A == C(E.a) B == C(E.b) r == E.r IN
    /\ IsEvent("pred2") /\ NoExc(E) /\ Purity(0) /\ Resync
    /\ (E.exc = "" =>
        /\ Chk("C01.equal", r.eq = (A = B) /\ r.ne = (A # B), <<A, B, r>>)
        /\ Chk("C01.hash", A = B => r.hasheq, <<A, B, r>>)
        /\ Chk("C01.intersects", r.intersects = (A \cap B # {}) /\ r.disjoint = (A \cap B = {}), <<A, B, r>>)
        /\ (A # {} /\ B # {} => Chk("C01.subset", r.subset = (B \subseteq A), <<A, B, r>>))
        /\ (A # {} /\ B # {} /\ r.cc =>
               /\ Chk("C01.proper-subset", r.proper = ProperlyInside(B, A), <<A, B, r>>)
               /\ Chk("C01.contiguous", r.contiguous = Contiguous(A, B), <<A, B, r>>)))

(* The caller overwrites the bounds of a set it holds: nobody else's set    *)
(* may change with it.                                                      *)
Poke ==
    /\ IsEvent("poke") /\ NoExc(E) /\ Purity(E.t)
    /\ reg' = [i \in 1..Len(reg) |-> [cells |-> IF i = E.t THEN Denote(n, E.regs[i]) ELSE reg[i].cells, ivs |-> E.regs[i]]]

(* The module-level constants for the empty set and the real line.          *)
Consts == /\ IsEvent("consts") /\ UNCHANGED reg
          /\ Chk("C02.constants", /\ Consistent(E.empty) /\ Members(E.empty) = {}
                                  /\ Consistent(E.all) /\ Members(E.all) = AllCells(n), E)

Next == \/ Make \/ Parse \/ Union_ \/ Inter \/ Diff \/ Compl \/ Simpl \/ MirrorE \/ Same \/ Isects \/ ChopE
        \/ Pred1 \/ Pred2 \/ Poke \/ Consts
Spec == Init /\ [][Next]_vars
=============================================================================
