---------------------------- MODULE MassMachine ----------------------------
(* A file of registers that hold distributions, and the operations on them. *)
(* The same machine is explored exhaustively for small constants (MCMass),  *)
(* and simulated to generate the histories that are replayed on the         *)
(* implementation (MassGen).                                                *)
EXTENDS Mass, TLC, Json
CONSTANTS N,        \* grid points
          Q,        \* literal masses are multiples of 1/Q
          K         \* registers

VARIABLES reg,      \* register -> mass sequence, <<>> if unset
          prev,     \* reg before the last operation
          op        \* the last operation
mvars == <<reg, prev, op>>

G0 == [k \in 1..N |-> RNorm(k * k)]       \* any positions do for the machine
Regs == 1..K
Held == {r \in Regs : reg[r] # <<>>}
Lits == {iv \in [lo : 0..N, hi : 1..(N + 1), l : {1, 2}, r : {1, 2}] :
            /\ iv.lo <= iv.hi
            /\ (iv.lo = 0 => iv.l = 2) /\ (iv.hi = N + 1 => iv.r = 2)}
Half == {<<"1/2", "1/2">>, <<"1/4", "3/4">>, <<"0", "1">>, <<"1", "0">>, <<"7/8", "1/8">>}

MInit == reg = [r \in Regs |-> <<>>] /\ prev = reg /\ op = [op |-> "none"]
Put(t, d, o) == reg' = [reg EXCEPT ![t] = d] /\ op' = o /\ prev' = reg
Keep(o)      == UNCHANGED reg /\ op' = o /\ prev' = reg

(* masses of the inner cells as multiples of 1/Q                            *)
Compositions == {f \in [1..(2 * N - 1) -> 0..Q] : LET s[i \in 0..(2 * N - 1)] == IF i = 0 THEN 0 ELSE s[i - 1] + f[i]
                                                 IN s[2 * N - 1] = Q}
Lit(t, f) == Put(t, [i \in 1..NCells(N) |-> IF i \in {1, NCells(N)} THEN "0" ELSE RDiv(f[i - 1], Q)],
                 [op |-> "literal", t |-> t, m |-> f])
Imp(t, k) == Put(t, Impulse(N, k), [op |-> "impulse", t |-> t, k |-> k])
Crop(t, a, S, ivs) == IF RLt(0, MassOf(reg[a], S))
                      THEN Put(t, CropTo(reg[a], S), [op |-> "crop", t |-> t, a |-> a, ivs |-> ivs, ok |-> TRUE])
                      ELSE Keep([op |-> "crop", t |-> t, a |-> a, ivs |-> ivs, ok |-> FALSE])
CropPoint(t, a, k) == /\ \/ RLt(0, reg[a][2 * k]) \/ (k > 1 /\ k < N /\ RLt(0, reg[a][2 * k + 1]) /\ RLt(0, reg[a][2 * k - 1]))
                      /\ Put(t, Impulse(N, k), [op |-> "croppoint", t |-> t, a |-> a, k |-> k])
Merge(t, a, b, w)  == Put(t, Mix(<<reg[a], reg[b]>>, w), [op |-> "merge", t |-> t, src |-> <<a, b>>, w |-> w])
Update(t, a, w)    == Put(t, Mix(<<reg[t], reg[a]>>, <<RSub(1, w), w>>), [op |-> "update", t |-> t, a |-> a, w |-> w])
Dup(t, a, how)     == Put(t, reg[a], [op |-> "dup", t |-> t, a |-> a, how |-> how])
(* left = [i, j], right = [p, q]: gaps to be closed; 0 for none             *)
Convex(t, i, j, p, q, m) ==
    LET frags == (IF i > 0 THEN <<UniformOn(G0, i, j)>> ELSE <<>>) \o (IF p > 0 THEN <<UniformOn(G0, p, q)>> ELSE <<>>)
        u == Mix(frags, [x \in 1..Len(frags) |-> RDiv(1, Len(frags))])
    IN Put(t, Mix(<<reg[t], u>>, <<RSub(1, RDiv(1, 2 * m)), RDiv(1, 2 * m)>>),
           [op |-> "convex", t |-> t, left |-> <<i, j>>, right |-> <<p, q>>, samples |-> m])
=============================================================================
