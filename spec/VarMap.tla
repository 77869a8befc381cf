------------------------------- MODULE VarMap -------------------------------
(* Maps over variables: an ordered mapping [m |-> sequence of [v, o]],      *)
(* v a variable (its index), o a reference into a store of contents, so     *)
(* that sharing of mutable values between copies is visible; known: the     *)
(* variables that can be referred to by name.                               *)
EXTENDS Integers, Sequences, FiniteSets
KeysOf(m) == [i \in 1..Len(m) |-> m[i].v]
Has(m, v) == \E i \in 1..Len(m) : m[i].v = v
At(m, v)  == CHOOSE i \in 1..Len(m) : m[i].v = v
Lookup(m, v) == m[At(m, v)].o
Assign(m, v, o) == IF Has(m, v) THEN [m EXCEPT ![At(m, v)] = [v |-> v, o |-> o]] ELSE Append(m, [v |-> v, o |-> o])
Remove(m, v) == SelectSeq(m, LAMBDA x : x.v # v)
RECURSIVE AssignAll(_, _)
AssignAll(m, n) == IF n = <<>> THEN m ELSE AssignAll(Assign(m, Head(n).v, Head(n).o), Tail(n))
RemoveAll(m, n) == SelectSeq(m, LAMBDA x : ~Has(n, x.v))
AsSet(m) == {m[i] : i \in 1..Len(m)}
=============================================================================
