------------------------------ MODULE TreeGen ------------------------------
(* Histories of learning trees from tables, transforming them and asking    *)
(* them: which operation on which register with which constraints.  One     *)
(* behaviour of simulation is one history of D operations.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS D,        \* operations per history
          K,        \* registers
          MODE      \* "learn", "ask"

VARIABLES V, held, hist
vars == <<V, held, hist>>
One(S) == {RandomElement(S)}
Odd(n) == {2 * j - 1 : j \in 1..((n + 1) \div 2)}

(* variables: a numeric variable has n grid points, data lie on the odd ones *)
Kinds == <<"num", "num", "num", "sym", "sym", "int">>
(* TLC evaluates an element of a set once, a definition at every use *)
Fix1(kn) == [kind |-> kn[1], n |-> IF kn[1] = "num" THEN 2 * kn[2] + 1 ELSE kn[2]]
RandV(len) == {[i \in 1..len |-> LET k == RandomElement(1..6) IN <<k, RandomElement(2..5)>>]}
Shape(v) == [i \in 1..Len(v) |-> Fix1(<<Kinds[v[i][1]], IF v[i][1] > 3 /\ v[i][2] = 5 THEN 2 ELSE v[i][2]>>)]

(* index of the u-th value (u in 1..12) of variable v *)
ValueAt(v, u) == IF v.kind = "num" THEN 2 * (2 * (u % ((v.n + 1) \div 2)) + 1) ELSE (u % v.n) + 1
RandRows(style, nr) ==
    {[r \in 1..nr |-> LET u == RandomElement(0..11) IN
        [i \in 1..Len(V) |->
            IF style = 1 THEN RandomElement(0..11)                                   \* independent
            ELSE IF style = 2 THEN IF RandomElement(1..4) = 1 THEN RandomElement(0..11) ELSE (r \div 3) + i   \* blocks with noise
            ELSE IF style = 3 THEN (r % 3) * i                                       \* three prototypes
            ELSE IF RandomElement(1..6) = 1 THEN RandomElement(0..11) ELSE r \div 2]]}   \* trend with noise
Table(rows) == [r \in 1..Len(rows) |-> [i \in 1..Len(V) |-> ValueAt(V[i], rows[r][i])]]

Pts(v) == 1..v.n
RandIv(v) == LET a == RandomElement(0..v.n) IN [lo |-> a, w |-> RandomElement(0..4), l |-> RandomElement({1, 2}), r |-> RandomElement({1, 2})]
(* what an interval with unbounded ends, or an empty one, is turned into *)
Norm(v, iv) ==
    LET hi == IF iv.lo + iv.w > v.n + 1 THEN v.n + 1 ELSE iv.lo + iv.w IN
    [lo |-> iv.lo, hi |-> IF hi < 1 THEN 1 ELSE hi,
     l |-> IF iv.lo = 0 THEN 2 ELSE IF hi = iv.lo THEN 1 ELSE iv.l,
     r |-> IF hi = v.n + 1 THEN 2 ELSE IF hi = iv.lo THEN 1 ELSE iv.r]
RandCon(v, dense) ==
    LET c == RandomElement(1..(IF dense THEN 10 ELSE 14)) IN
    <<c, [a |-> RandIv(v), b |-> RandIv(v), k |-> RandomElement(1..v.n), s |-> RandomElement((SUBSET (1..(IF v.kind = "num" THEN 1 ELSE v.n))) \ {{}})]>>
Con(v, x) ==
    IF x[1] > 7 THEN [t |-> "none"]
    ELSE IF v.kind = "num"
         THEN IF x[1] = 1 THEN [t |-> "pt", k |-> x[2].k]
              ELSE IF x[1] = 2 THEN [t |-> "ivs", ivs |-> <<Norm(v, x[2].a), Norm(v, x[2].b)>>]
              ELSE [t |-> "ivs", ivs |-> <<Norm(v, x[2].a)>>]
         ELSE IF x[1] <= 3 THEN [t |-> "lab", s |-> {x[2].k}] ELSE [t |-> "lab", s |-> x[2].s]
RandCons == {[i \in 1..Len(V) |-> RandCon(V[i], Len(V) < 3)]}
Cons(x) == [i \in 1..Len(V) |-> Con(V[i], x[i])]

RandParams == {[targets |-> RandomElement(SUBSET (1..Len(V))), features |-> RandomElement(SUBSET (1..Len(V))),
                full |-> RandomElement(1..5), deps |-> [i \in 1..Len(V) |-> RandomElement(SUBSET (1..Len(V)))], usedeps |-> RandomElement(1..4),
                msl |-> RandomElement({1, 1, 1, 2, 3, 5}), frac |-> RandomElement({"", "", "", "1/8", "1/4", "1/2"}),
                mii |-> RandomElement({"0", "0", "1/64", "1/8", "1/2"}), md |-> RandomElement({-1, -1, 1, 2, 3}),
                close |-> RandomElement(BOOLEAN), keep |-> RandomElement(BOOLEAN), form |-> RandomElement({"rows", "frame", "columns", "array"})]}

LearnOp == \E t \in One(1..K), st \in One(1..4), nr \in One({2, 4, 7, 9, 12, 16}) : \E rows \in RandRows(st, nr) : \E p \in RandParams :
           /\ hist' = Append(hist, [op |-> "learn", t |-> t, rows |-> Table(rows), P |-> p])
           /\ held' = held \cup {t}
Trans == \E c \in One(1..8), a \in One(held), t \in One(1..K), x \in RandCons, w \in One(1..8),
            thr \in One({"0", "1/8", "1/4", "1/2", "3/4", "1"}), how \in One({"copy", "json", "text", "pickle", "file"}) :
           LET op == CASE c \in {1, 2} -> [op |-> "dup", a |-> a, t |-> t, how |-> how]
                       [] c \in {3, 4, 5} -> [op |-> "cond", a |-> a, t |-> t, e |-> Cons(x)]
                       [] c = 6 -> [op |-> "mulprior", t |-> a, w |-> w]
                       [] OTHER -> [op |-> "prune", a |-> a, t |-> t, thr |-> thr]
           IN /\ hist' = Append(hist, op) /\ held' = held \cup {t}
AskOp == \E a \in One(held), b \in One(held), x \in RandCons, y \in RandCons, o \in One(0..4), s \in One(SUBSET (1..Len(V))), w \in One(0..100) :
           /\ hist' = Append(hist, [op |-> "ask", a |-> a, b |-> b, q |-> Cons(x), e |-> Cons(y), order |-> o, vars |-> s, salt |-> w])
           /\ UNCHANGED held
Init == V = <<>> /\ held = {} /\ hist = <<>>
Declare == \E len \in One({1, 2, 2, 3, 3, 4}) : \E v \in RandV(len) : V' = Shape(v)
Step == IF MODE = "learn" THEN LearnOp
        ELSE \E c \in One(1..10) : IF held = {} \/ c = 1 THEN LearnOp ELSE IF c <= 4 THEN Trans ELSE AskOp
Next == /\ Len(hist) < D
        /\ IF V = <<>> THEN Declare /\ UNCHANGED <<held, hist>> ELSE Step /\ UNCHANGED V
        /\ (Len(hist') = D => PrintT("@@H|" \o ToJson([V |-> V, k |-> K, ops |-> hist'])))
Spec == Init /\ [][Next]_vars
=============================================================================
