------------------------------ MODULE MCFunc -------------------------------
(* Laws of the functions of module Func, for all functions over a grid of   *)
(* N points with pieces from a small set.                                   *)
EXTENDS Func
CONSTANTS N, Pieces
ASSUME N \in 1..3
VARIABLES f, g
vars == <<f, g>>
G == [k \in 1..N |-> RSub(k, RDiv(N + 1, 2))]        \* symmetric around 0, step 1
P0 == {Out, Und, <<"0", "0", "0">>, <<"0", "0", "1">>, <<"0", "1", "0">>, <<"0", "-1", "2">>}
Wide == P0 \cup {<<"0", "0", "-2">>, <<"0", "1/2", "-1">>}
PSet == IF Pieces = "small" THEN P0 ELSE Wide
Fs == [1..(2 * N + 1) -> PSet]
Init == f \in Fs /\ g = f
Next == g = f /\ g' \in {x \in Fs : \A i \in 1..(2 * N + 1) : x[i] = x[1] \/ x[i] = f[i]} /\ UNCHANGED f
Spec == Init /\ [][Next]_vars
Val(x, i, s) == At(x[i], s)
Same_(a, b) == a = b \/ (RIsNaN(a) /\ RIsNaN(b)) \/ REq(a, b)
All(P(_, _)) == \A i \in 1..(2 * N + 1) : \A k \in 1..Len(Samples(G, i)) : P(i, Samples(G, i)[k])
Pointwise == LET P(i, s) == /\ Same_(Val(Plus(f, g), i, s), RAdd(Val(f, i, s), Val(g, i, s)))
                            /\ Same_(Val(Times(f, g), i, s), RMul(Val(f, i, s), Val(g, i, s)))
                            /\ Same_(Val(Minus(f, g), i, s), RSub(Val(f, i, s), Val(g, i, s)))
             IN All(P)
Commutes == Plus(f, g) = Plus(g, f) /\ Times(f, g) = Times(g, f)
MinMax == (MinMaxOk(f, g) /\ Smooth(G, f, g)) =>
            LET P(i, s) == i \in CommonDom(f, g) => /\ Same_(Val(Lower(G, f, g), i, s), RMin(Val(f, i, s), Val(g, i, s)))
                                                    /\ Same_(Val(Upper(G, f, g), i, s), RMax(Val(f, i, s), Val(g, i, s)))
            IN All(P)
Inner == 2..(2 * N)
MinMaxArea == MinMaxOk(f, g) => LET S == Inner \cap CommonDom(f, g) IN
                 /\ REq(RAdd(AreaMin(G, f, g, S, TRUE), AreaMin(G, f, g, S, FALSE)), RAdd(Area(G, f, S), Area(G, g, S)))
                 /\ RLe(AreaMin(G, f, g, S, TRUE), AreaMin(G, f, g, S, FALSE))
                 /\ (Smooth(G, f, g) => REq(AreaMin(G, f, g, S, TRUE), Area(G, Lower(G, f, g), S)))
Additive == \A c \in 1..(2 * N + 1) : Same_(Area(G, f, 1..(2 * N + 1)), RAdd(Area(G, f, 1..c), Area(G, f, (c + 1)..(2 * N + 1))))
LinearArea == (\A i \in Inner : Is(f[i]) /\ Is(g[i])) => REq(Area(G, Plus(f, g), Inner), RAdd(Area(G, f, Inner), Area(G, g, Inner)))
Fundamental == \A i \in 3..(2 * N - 1) : (i % 2 = 1 /\ Is(f[i])) => REq(Area(G, Diff(f), {i}), RSub(At(f[i], Hi(G, i)), At(f[i], Lo(G, i))))
MirrorTwice == Mirrored(Mirrored(f)) = f
MirrorPoint == LET P(i, s) == Same_(Val(Mirrored(f), i, s), Val(f, 2 * N + 2 - i, RNeg(s))) IN All(P)
MirrorArea  == Same_(Area(G, f, Inner), Area(G, Mirrored(f), Inner))
ShiftPoint == \A k \in {-1, 1} : ShiftOk(f, k) => LET P(i, s) == (i + 2 * k \in 1..(2 * N + 1) /\ i \in Inner /\ i + 2 * k \in Inner) =>
                                                        Same_(Val(Shift(f, k, "1"), i, s), Val(f, i + 2 * k, RAdd(s, k))) IN All(P)
ShiftBack == \A k \in {-1, 1} : (ShiftOk(f, k) /\ ShiftOk(Shift(f, k, "1"), -k)) => Shift(Shift(f, k, "1"), -k, "1") = f
SupBounds == LET P(i, s) == Is(f[i]) => RLe(Val(f, i, s), Sup(G, f)) IN All(P)
Levels(x) == \A i \in 1..(2 * N + 1) : Deg(x[i]) = 0
Rect == (Bounded(G, f) /\ \A i \in 1..(2 * N + 1) : Deg(f[i]) <= 1) => /\ Levels(Rectified(G, f)) /\ Same_(Area(G, f, Inner), Area(G, Rectified(G, f), Inner))
ConvCommutes == (Levels(f) /\ Levels(g)) => \A z \in {"-1", "0", "1/2", "1"} : REq(ConvAt(G, f, g, z), ConvAt(G, g, f, z))
=============================================================================
