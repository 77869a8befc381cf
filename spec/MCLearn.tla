------------------------------ MODULE MCLearn ------------------------------
(* Greedy learning as a state machine, for all small tables: a node with    *)
(* enough improvement is split on any of the best candidates until none is  *)
(* left.  Whatever the order, the leaves partition the rows, none is too    *)
(* small or too deep, splits improve, and no splittable leaf remains.       *)
EXTENDS Learn, TLC
CONSTANTS NR
VARIABLES rows, P, open, done
vars == <<rows, P, open, done>>
V == <<[kind |-> "num", n |-> 3, grid |-> <<"0", "1", "2">>, inv |-> FALSE], [kind |-> "sym", n |-> 2, inv |-> FALSE]>>
RowSet == {2, 4, 6} \X {1, 2}
Init == /\ rows \in [1..NR -> RowSet]
        /\ \A r \in 1..(NR - 1) : rows[r][1] * 10 + rows[r][2] <= rows[r + 1][1] * 10 + rows[r + 1][2]
        /\ \E tg \in {{1}, {2}, {1, 2}}, ft \in {{1}, {2}, {1, 2}}, m \in {1, 2}, i \in {"0", "1/2"}, d \in {-1, 1} :
              P = [targets |-> tg, features |-> ft, deps |-> <<tg, tg>>, msl |-> m, mii |-> i, md |-> d]
        /\ open = {[R |-> 1..NR, depth |-> 0]} /\ done = {}
Splits(x) == LET gs == Gains(V, rows, P, "mean", x.R) IN
             IF gs = {} \/ (P.md >= 0 /\ x.depth >= P.md) THEN {}
             ELSE {g \in gs : REq(g.g, MaxGain(gs)) /\ RLt(P.mii, g.g)}
Next == /\ UNCHANGED <<rows, P>>
        /\ \E x \in open : LET s == Splits(x) IN
              IF s = {} THEN open' = open \ {x} /\ done' = done \cup {x}
              ELSE /\ done' = done
                   /\ \E g \in s : open' = (open \ {x}) \cup {[R |-> g.c.a, depth |-> x.depth + 1], [R |-> x.R \ g.c.a, depth |-> x.depth + 1]}
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
All == open \cup done
Partition == /\ UNION {x.R : x \in All} = 1..NR
             /\ \A x, y \in All : x # y => x.R \cap y.R = {}
             /\ \A x \in All : x.R # {}
BigEnough == \A x \in All : Cardinality(x.R) >= P.msl \/ x.R = 1..NR
Shallow == P.md >= 0 => \A x \in All : x.depth <= P.md
Stable == \A x \in done : Splits(x) = {}
(* relative improvements are between 0 and 1 (dependent targets, mean)      *)
GainRange == \A x \in All : \A g \in Gains(V, rows, P, "mean", x.R) : RLe(0, g.g) /\ RLe(g.g, 1)
(* the admissible sets of rows are those the split conditions describe      *)
SplitsDescribe == \A x \in All : \A c \in Candidates(V, rows, P, x.R) :
                     {r \in x.R : rows[r][c.f] \in LeftSet(V, rows, c.f, x.R, c.a)} = c.a
Terminates == <>(open = {})
=============================================================================
