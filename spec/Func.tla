------------------------------- MODULE Func --------------------------------
(* Functions that are polynomials of degree <= 2 on every cell of a grid of *)
(* n points.  A function is a sequence of 2n+1 pieces, one per cell (odd    *)
(* positions: gaps, even positions: the grid points).  A piece is <<>>      *)
(* (outside of the domain), <<"u">> (inside, but undefined) or the          *)
(* coefficients <<a, b, c>> of axx + bx + c.                                *)
EXTENDS Intervals, Rat, TLC
Out == <<>>
Und == <<"u">>
Is(p)  == Len(p) = 3
Deg(p) == IF ~Is(p) THEN 0 ELSE IF ~REq(p[1], 0) THEN 2 ELSE IF ~REq(p[2], 0) THEN 1 ELSE 0
At(p, x) == IF Is(p) THEN RAdd(RMul(RAdd(RMul(p[1], x), p[2]), x), p[3]) ELSE "nan"
Num(a) == RNorm(a)
Const(v) == <<"0", "0", Num(v)>>
Poly(s) == IF Len(s) = 3 THEN <<Num(s[1]), Num(s[2]), Num(s[3])>> ELSE s

PPlus(p, q)  == <<RAdd(p[1], q[1]), RAdd(p[2], q[2]), RAdd(p[3], q[3])>>
PTimes(p, q) == <<RAdd(RAdd(RMul(p[1], q[3]), RMul(p[2], q[2])), RMul(p[3], q[1])), RAdd(RMul(p[2], q[3]), RMul(p[3], q[2])), RMul(p[3], q[3])>>
PScale(p, v) == IF Is(p) THEN <<RMul(p[1], v), RMul(p[2], v), RMul(p[3], v)>> ELSE p
PDiff(p)     == IF Is(p) THEN <<"0", RMul(2, p[1]), p[2]>> ELSE p
PShift(p, d) == IF Is(p) THEN <<p[1], RAdd(p[2], RMul(RMul(2, p[1]), d)), At(p, d)>> ELSE p          \* x |-> p(x + d)
PMirror(p)   == IF Is(p) THEN <<p[1], RNeg(p[2]), p[3]>> ELSE p
(* antiderivative at x                                                      *)
PAnti(p, x) == RAdd(RAdd(RDiv(RMul(p[1], RMul(x, RMul(x, x))), 3), RDiv(RMul(p[2], RMul(x, x)), 2)), RMul(p[3], x))

(* Operands that are not both defined somewhere give something undefined.   *)
Joint(p, q, r) == IF p = Out /\ q = Out THEN Out ELSE IF Is(p) /\ Is(q) THEN r ELSE Und
Plus(f, g)  == [i \in 1..Len(f) |-> Joint(f[i], g[i], IF Is(f[i]) /\ Is(g[i]) THEN PPlus(f[i], g[i]) ELSE Und)]
Times(f, g) == [i \in 1..Len(f) |-> Joint(f[i], g[i], IF Is(f[i]) /\ Is(g[i]) THEN PTimes(f[i], g[i]) ELSE Und)]
Scale(f, v) == [i \in 1..Len(f) |-> PScale(f[i], v)]
Minus(f, g) == Plus(f, Scale(g, "-1"))
(* ... an elementary function does not extend the domain                    *)
Within(f, g) == [i \in 1..Len(f) |-> IF f[i] = Out THEN Out ELSE g[i]]
TimesOk(f, g) == \A i \in 1..Len(f) : Is(f[i]) /\ Is(g[i]) => Deg(f[i]) + Deg(g[i]) <= 2
Flat(f) == \A i \in 1..Len(f) : Deg(f[i]) <= 1
Total(f) == \A i \in 1..Len(f) : f[i] # Und
Everywhere(p, n) == [i \in 1..(2 * n + 1) |-> p]
Same(f, g) == \A i \in 1..Len(f) : f[i] = g[i]

(* Cells of an interval, as positions                                       *)
Pos(n, iv) == {c + 1 : c \in IvCells(n, iv)}
Over(f, S, p) == [i \in 1..Len(f) |-> IF i \in S THEN p ELSE f[i]]
Crop(f, S)    == [i \in 1..Len(f) |-> IF i \in S THEN f[i] ELSE Out]
Dom(f)        == {i \in 1..Len(f) : f[i] # Out}
Diff(f)       == [i \in 1..Len(f) |-> PDiff(f[i])]
DropUnd(f)    == [i \in 1..Len(f) |-> IF f[i] = Und THEN Out ELSE f[i]]
Literal(n, ps) ==  \* pieces with disjoint intervals
    [i \in 1..(2 * n + 1) |-> IF \E k \in 1..Len(ps) : i \in Pos(n, ps[k].iv)
                              THEN LET k == CHOOSE k \in 1..Len(ps) : i \in Pos(n, ps[k].iv) IN IF ps[k].f = <<>> THEN Und ELSE Poly(ps[k].f)
                              ELSE Out]
(* The line through points on the grid, up to and including the last one    *)
Line(x1, y1, x2, y2) == LET m == RDiv(RSub(y2, y1), RSub(x2, x1)) IN <<"0", m, RSub(y1, RMul(m, x1))>>
ThroughPoints(G, pts) ==
    [i \in 1..(2 * Len(G) + 1) |->
      LET S == {k \in 1..(Len(pts) - 1) : 2 * pts[k].x <= i /\ (i < 2 * pts[k + 1].x \/ (k = Len(pts) - 1 /\ i = 2 * pts[k + 1].x))} IN
      IF S = {} THEN Out ELSE LET k == Min(S) IN Line(G[pts[k].x], pts[k].y, G[pts[k + 1].x], pts[k + 1].y)]

(* x |-> f(x + k steps) on a grid with equal steps: representable when what *)
(* is pushed over the edge looks like what is next to it.                   *)
ShiftOk(f, k) == LET n == Len(f) s == 2 * k IN
    IF k >= 0 THEN \A i \in 1..n : i <= s + 1 => f[i] = f[1] ELSE \A i \in 1..n : i >= n + s => f[i] = f[n]
Shift(f, k, step) == LET n == Len(f) IN
    [i \in 1..n |-> LET j == i + 2 * k IN PShift(f[IF j < 1 THEN 1 ELSE IF j > n THEN n ELSE j], RMul(k, step))]
MirrorAt(f, i) == PMirror(f[Len(f) + 1 - i])
Mirrored(f) == [i \in 1..Len(f) |-> MirrorAt(f, i)]

(* Pointwise minimum of pieces of degree <= 1 on a cell, as long as they do *)
(* not cross inside of it.  lo, hi: bounds of the gap ("-inf", "inf").       *)
Lo(G, i) == IF i = 1 THEN "-inf" ELSE G[i \div 2]
Hi(G, i) == IF i = 2 * Len(G) + 1 THEN "inf" ELSE G[(i + 1) \div 2]
Sgn(a) == IF RLt(a, 0) THEN -1 ELSE IF RLt(0, a) THEN 1 ELSE 0
(* sign of p - q towards either end of cell i                               *)
EndSgn(d, x) == IF x = "inf" THEN (IF Sgn(d[2]) # 0 THEN Sgn(d[2]) ELSE Sgn(d[3]))
                ELSE IF x = "-inf" THEN (IF Sgn(d[2]) # 0 THEN 0 - Sgn(d[2]) ELSE Sgn(d[3]))
                ELSE Sgn(At(d, x))
DiffOf(p, q) == PPlus(p, PScale(q, "-1"))
Crosses(G, i, p, q) == IF i % 2 = 0 THEN FALSE
                       ELSE LET d == DiffOf(p, q) IN EndSgn(d, Lo(G, i)) * EndSgn(d, Hi(G, i)) = -1
Below(G, i, p, q) == LET d == DiffOf(p, q) IN           \* p <= q all over the cell
    IF i % 2 = 0 THEN Sgn(At(d, G[i \div 2])) <= 0 ELSE EndSgn(d, Lo(G, i)) + EndSgn(d, Hi(G, i)) <= 0
CommonDom(f, g) == {i \in 1..Len(f) : f[i] # Out /\ g[i] # Out}
MinMaxOk(f, g) == \A i \in CommonDom(f, g) : Is(f[i]) /\ Is(g[i]) /\ Deg(f[i]) <= 1 /\ Deg(g[i]) <= 1
Smooth(G, f, g) == \A i \in CommonDom(f, g) : ~Crosses(G, i, f[i], g[i])
Lower(G, f, g) == [i \in 1..Len(f) |-> IF i \notin CommonDom(f, g) THEN Out ELSE IF Below(G, i, f[i], g[i]) THEN f[i] ELSE g[i]]
Upper(G, f, g) == [i \in 1..Len(f) |-> IF i \notin CommonDom(f, g) THEN Out ELSE IF Below(G, i, f[i], g[i]) THEN g[i] ELSE f[i]]

(* Where to look: the grid points, and three points in every gap.           *)
Samples(G, i) == IF i % 2 = 0 THEN <<G[i \div 2]>>
                 ELSE IF i = 1 THEN [k \in 1..3 |-> RSub(G[1], 4 - k)]
                 ELSE IF i = 2 * Len(G) + 1 THEN [k \in 1..3 |-> RAdd(G[Len(G)], k)]
                 ELSE [k \in 1..3 |-> RAdd(Lo(G, i), RMul(RDiv(k, 4), RSub(Hi(G, i), Lo(G, i))))]

(* The area under piece p over (a part of) cell i.                          *)
Part(p, lo, hi) ==
    IF ~RIsFin(lo) \/ ~RIsFin(hi)
    THEN IF Sgn(p[2]) = 0 THEN (IF Sgn(p[3]) = 0 THEN "0" ELSE IF Sgn(p[3]) > 0 THEN "inf" ELSE "-inf")
         ELSE IF RIsFin(lo) THEN (IF Sgn(p[2]) > 0 THEN "inf" ELSE "-inf")
         ELSE IF RIsFin(hi) THEN (IF Sgn(p[2]) > 0 THEN "-inf" ELSE "inf") ELSE "nan"
    ELSE RSub(PAnti(p, hi), PAnti(p, lo))
Area(G, f, S) == RSum([i \in 1..Len(f) |-> IF i \in S /\ i % 2 = 1 /\ Is(f[i]) THEN Part(f[i], Lo(G, i), Hi(G, i)) ELSE "0"])
(* Area under the minimum / maximum of two linear pieces over a finite gap  *)
Cross(p, q) == RDiv(RSub(q[3], p[3]), RSub(p[2], q[2]))
PartMin(p, q, lo, hi, low) ==
    LET d == DiffOf(p, q)
        pick(a, b) == LET m == RDiv(RAdd(a, b), 2) less == RLe(At(p, m), At(q, m)) IN Part(IF less = low THEN p ELSE q, a, b)
    IN IF Sgn(At(d, lo)) * Sgn(At(d, hi)) = -1 THEN RAdd(pick(lo, Cross(p, q)), pick(Cross(p, q), hi)) ELSE pick(lo, hi)
AreaMin(G, f, g, S, low) == RSum([i \in 1..Len(f) |-> IF i \in S /\ i % 2 = 1 /\ i \in CommonDom(f, g) THEN PartMin(f[i], g[i], Lo(G, i), Hi(G, i), low) ELSE "0"])

(* Greatest value approached anywhere (pieces of degree <= 1).               *)
Sup(G, f) == LET vals == UNION {IF ~Is(f[i]) THEN {} ELSE IF i % 2 = 0 THEN {At(f[i], G[i \div 2])}
                                ELSE LET e(x) == IF RIsFin(x) THEN {At(f[i], x)}
                                                 ELSE IF Deg(f[i]) = 0 THEN {f[i][3]} ELSE IF EndSgn(<<"0", f[i][2], "0">>, x) > 0 THEN {"inf"} ELSE {}
                                     IN e(Lo(G, i)) \cup e(Hi(G, i)) : i \in 1..Len(f)}
             IN IF vals = {} THEN "nan" ELSE CHOOSE v \in vals : \A w \in vals : RLe(w, v)
(* Runs of cells that carry the same piece.                                  *)
RunFrom(f, i) == CHOOSE a \in 1..i : /\ \A k \in a..i : f[k] = f[i]
                                     /\ (a = 1 \/ f[a - 1] # f[i])
RunTo(f, i) == CHOOSE b \in i..Len(f) : /\ \A k \in i..b : f[k] = f[i]
                                        /\ (b = Len(f) \/ f[b + 1] # f[i])
RunLo(G, f, i) == LET a == RunFrom(f, i) IN IF a % 2 = 0 THEN G[a \div 2] ELSE Lo(G, a)
RunHi(G, f, i) == LET b == RunTo(f, i) IN IF b % 2 = 0 THEN G[b \div 2] ELSE Hi(G, b)
Bounded(G, f) == \A i \in 1..Len(f) : Deg(f[i]) = 1 => RIsFin(RunLo(G, f, i)) /\ RIsFin(RunHi(G, f, i))
Rectified(G, f) == [i \in 1..Len(f) |-> IF Deg(f[i]) # 1 THEN f[i]
                    ELSE Const(RDiv(RAdd(At(f[i], RunLo(G, f, i)), At(f[i], RunHi(G, f, i))), 2))]
(* (f * g)(z) for functions that are constant on cells and 0 or out of      *)
(* their domain near infinity: sum over pairs of gaps of the overlap of one *)
(* with the mirrored and shifted other.                                     *)
RMin2(a, b) == IF RLe(a, b) THEN a ELSE b
RMax2(a, b) == IF RLe(a, b) THEN b ELSE a
Overlap(a, b, c, d) == LET o == RSub(RMin2(b, d), RMax2(a, c)) IN RMax2(o, "0")
ConvAt(G, f, g, z) ==
    LET n == Len(f) IN
    RSum([k \in 1..(n * n) |-> LET i == ((k - 1) \div n) + 1 j == ((k - 1) % n) + 1 IN
          IF i % 2 = 0 \/ j % 2 = 0 \/ ~Is(f[i]) \/ ~Is(g[j]) \/ i \in {1, n} \/ j \in {1, n} THEN "0"
          ELSE RMul(RMul(f[i][3], g[j][3]), Overlap(Lo(G, i), Hi(G, i), RSub(z, Hi(G, j)), RSub(z, Lo(G, j))))])
=============================================================================
