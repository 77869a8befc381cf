---------------------------- MODULE DiscMachine ----------------------------
(* Registers holding distributions over N labels, and the operations.       *)
EXTENDS Discrete, TLC, Json
CONSTANTS N, Q, K
VARIABLES reg, prev, op
mvars == <<reg, prev, op>>
Regs == 1..K
Held == {r \in Regs : reg[r] # <<>>}
Weights == {<<"1/2", "1/2">>, <<"1/4", "3/4">>, <<"0", "1">>, <<"1", "0">>, <<"7/8", "1/8">>, <<"1/1024", "1023/1024">>}
MInit == reg = [r \in Regs |-> <<>>] /\ prev = reg /\ op = [op |-> "none"]
Put(t, d, o) == reg' = [reg EXCEPT ![t] = d] /\ op' = o /\ prev' = reg
Keep(o)      == UNCHANGED reg /\ op' = o /\ prev' = reg
Sum(f) == LET s[i \in 0..N] == IF i = 0 THEN 0 ELSE s[i - 1] + f[i] IN s[N]
Compositions == {f \in [1..N -> 0..Q] : Sum(f) = Q}
(* parameters in proportion to f; as counts of rows when fitted             *)
Set(t, f, how) == Put(t, [i \in 1..N |-> RDiv(f[i], Sum(f))], [op |-> how, t |-> t, m |-> f])
Imp(t, a, k)   == Put(t, Point(N, k), [op |-> "impulse", t |-> t, a |-> a, k |-> k])
Crop(t, a, S)  == IF RLt(0, ProbOf(reg[a], S)) THEN Put(t, Condition(reg[a], S), [op |-> "crop", t |-> t, a |-> a, s |-> S])
                  ELSE Keep([op |-> "crop", t |-> t, a |-> a, s |-> S])
Merge(t, a, b, w) == Put(t, Mixture(<<reg[a], reg[b]>>, w), [op |-> "merge", t |-> t, src |-> <<a, b>>, w |-> w])
Update(t, a, w)   == Put(t, Mixture(<<reg[t], reg[a]>>, <<RSub(1, w), w>>), [op |-> "update", t |-> t, a |-> a, w |-> w])
Dup(t, a, how)    == Put(t, reg[a], [op |-> "dup", t |-> t, a |-> a, how |-> how])
=============================================================================
