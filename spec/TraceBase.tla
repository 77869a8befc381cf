----------------------------- MODULE TraceBase -----------------------------
(* Common machinery of the trace specifications.  The histories recorded    *)
(* from the implementation are read from a JSON file: a sequence of records *)
(* with a field id and a field ev, the sequence of recorded events.  Every  *)
(* history is one behaviour of the trace specification; every event is one  *)
(* step.  Verdicts are total: a clause that fails is reported with the      *)
(* history, the position and the clause's name, and checking carries on.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, Rat

Hist == JsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES h,     \* which history this behaviour is about
          l      \* how many of its events have been consumed

H  == Hist[h]
Ev == H.ev
E  == Ev[l + 1]

Tol == "1/100000000"
Close(a, b) == RClose(a, b, Tol)

IsEvent(name) == l < Len(Ev) /\ E.op = name /\ l' = l + 1 /\ UNCHANGED h

(* Always TRUE; reports the clause when it does not hold.                   *)
Chk(clause, ok, detail) ==
    IF ok THEN TRUE
    ELSE PrintT("@@F|" \o H.id \o "|" \o ToString(l + 1) \o "|" \o clause \o "|" \o ToString(detail))

(* Call raised no exception *)
NoExc(e) == Chk("no-exception", e.exc = "", e.exc)

DoneNote == l = Len(Ev) => PrintT("@@D|" \o H.id)   \* as an invariant, evaluated once per distinct state

(* Helpers on sequences and sets *)
SetOf(s)  == {s[i] : i \in 1..Len(s)}
Map(F(_), s) == [i \in 1..Len(s) |-> F(s[i])]
=============================================================================
