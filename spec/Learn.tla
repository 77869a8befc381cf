------------------------------- MODULE Learn -------------------------------
(* Learning a tree: which splits of a set of rows are admissible, how much  *)
(* each improves the impurity of the targets, which nodes that entails.     *)
(*   V     variables (see Tree), plus inv: impurity inverted (symbolic)     *)
(*   rows  sequence of rows, a row being one index per variable (numeric:   *)
(*         grid point k has the index 2k)                                   *)
(*   P     [targets, features: sets of variables, deps: feature -> set of   *)
(*         targets, msl: least number of rows per leaf, mii: least          *)
(*         improvement, md: greatest depth]                                 *)
EXTENDS Integers, Sequences, FiniteSets, Rat, Tree

Pos(v, i) == IF v.kind = "num" THEN v.grid[i \div 2] ELSE RNorm(i)
SeqOf(S) == SortedSeq(S)
SqR(x) == RMul(x, x)
IsNumeric(v) == v.kind # "sym"

(* population variance, Gini index normalised to [0, 1]                     *)
VarOf(V, rows, R, t) ==
    LET s == SeqOf(R) n == Len(s)
        x == [j \in 1..n |-> Pos(V[t], rows[s[j]][t])]
    IN IF n <= 1 THEN "0"
       ELSE RSub(RDiv(RDot(x, x), n), SqR(RDiv(RSum(x), n)))
GiniOf(V, rows, R, t) ==
    LET k == V[t].n n == Cardinality(R)
        cnt(v) == Cardinality({r \in R : rows[r][t] = v})
        g == RDiv(RSub(RDiv(RSum([v \in 1..k |-> RNorm(cnt(v) * cnt(v))]), n * n), 1), RSub(RDiv(1, k), 1))
    IN IF k = 1 THEN "0" ELSE IF V[t].inv THEN RSub(1, g) ELSE g

MeanR(s) == IF Len(s) = 0 THEN "0" ELSE RDiv(RSum(s), Len(s))

(* Relative improvement by splitting R into A and B on the feature f: the   *)
(* mean relative reduction of the variance of the numeric targets (f itself *)
(* and constant ones excluded) and the relative reduction of the mean Gini  *)
(* index of the symbolic ones, weighted by the shares of numeric and        *)
(* symbolic targets among all targets; a target that f is not declared to   *)
(* influence counts as not reduced.                                         *)
(* agg: how several numeric targets are aggregated: "mean", or "running":   *)
(* the accumulation m_k = m_{k-1} * (k-1) + x_k / k that the implementation  *)
(* performs (a known finding: it overrates nodes with several targets).     *)
RECURSIVE Running(_)
Running(s) == IF s = <<>> THEN "0" ELSE LET k == Len(s) IN
              RAdd(RMul(Running(SubSeq(s, 1, k - 1)), k - 1), RDiv(s[k], k))
Improvement(V, rows, P, agg, f, R, A, B) ==
    LET n == Cardinality(R) na == Cardinality(A) nb == Cardinality(B)
        num == {t \in P.targets : IsNumeric(V[t])}
        dn  == SeqOf({t \in num : t # f /\ ~REq(VarOf(V, rows, R, t), 0)})
        ds  == SeqOf(P.targets \ num)
        avg(x, y) == RDiv(RAdd(RMul(x, na), RMul(y, nb)), n)
        dv(t) == LET v == VarOf(V, rows, R, t) IN
                 IF t \in P.deps[f] THEN RDiv(RSub(v, avg(VarOf(V, rows, A, t), VarOf(V, rows, B, t))), v) ELSE "0"
        gini(S) == MeanR([j \in 1..Len(ds) |-> GiniOf(V, rows, IF ds[j] \in P.deps[f] THEN S ELSE R, ds[j])])
        gt == gini(R)
        wn == RDiv(Cardinality(num), Cardinality(P.targets))
        all == [j \in 1..Len(dn) |-> dv(dn[j])]
    IN RAdd(RMul(wn, IF agg = "mean" THEN MeanR(all) ELSE Running(all)),
            IF REq(gt, 0) THEN "0" ELSE RMul(RSub(1, wn), RDiv(RSub(gt, avg(gini(A), gini(B))), gt)))

(* The splits of R on f, as the set of rows that go left; numeric and       *)
(* integer features split between neighbouring values, symbolic ones into   *)
(* one value and the rest.                                                  *)
Lefts(V, rows, f, R) ==
    LET vals == {rows[r][f] : r \in R} IN
    {A \in (IF IsNumeric(V[f]) THEN {{r \in R : rows[r][f] <= x} : x \in vals}
            ELSE {{r \in R : rows[r][f] = x} : x \in vals}) : A # R}
Candidates(V, rows, P, R) ==
    UNION {{[f |-> f, a |-> A] : A \in {A \in Lefts(V, rows, f, R) : /\ Cardinality(A) >= P.msl
                                                                    /\ Cardinality(R) - Cardinality(A) >= P.msl}} : f \in P.features}
Gains(V, rows, P, agg, R) == {[c |-> c, g |-> Improvement(V, rows, P, agg, c.f, R, c.a, R \ c.a)] : c \in Candidates(V, rows, P, R)}
MaxGain(gs) == (CHOOSE x \in gs : \A y \in gs : RLe(y.g, x.g)).g

(* What a split on f that sends A left looks like: the indices on the left. *)
LeftSet(V, rows, f, R, A) ==
    LET a == {rows[r][f] : r \in A} b == {rows[r][f] : r \in R \ A}
        mx == CHOOSE x \in a : \A y \in a : y <= x
        mn == CHOOSE x \in b : \A y \in b : y >= x
    IN IF V[f].kind = "sym" THEN a
       ELSE IF V[f].kind = "int" THEN 1..(mn - 1)
       ELSE 1..((mx + mn) \div 2 - 1)          \* below the midpoint (the grid is equidistant)

(* Fitting one leaf.  Closing a gap: see MassTrace.                         *)
CountOf(rows, R, t, i) == Cardinality({r \in R : rows[r][t] = i})
FitDisc(V, rows, R, t) == [i \in 1..V[t].n |-> RDiv(CountOf(rows, R, t, i), Cardinality(R))]
(* Is d a numeric distribution whose CDF interpolates the zero-based        *)
(* empirical distribution of the rows at some of the data points, leaving   *)
(* out others only as far as the precision eps allows (or no single point   *)
(* would improve the segment)?                                              *)
FitOk(V, rows, R, t, d, eps) ==
    LET n == V[t].n G == V[t].grid
        cnt == [k \in 1..n |-> CountOf(rows, R, t, 2 * k)]
        pts == SelectSeq([k \in 1..n |-> k], LAMBDA k : cnt[k] > 0)
        p == Len(pts)
        tot == Cardinality(R)
        near(a, b) == RClose(a, b, "1/10000000")
        RECURSIVE Cum(_)
        Cum(k) == IF k = 0 THEN 0 ELSE Cum(k - 1) + cnt[k]
        x == [j \in 1..p |-> G[pts[j]]]
        y == [j \in 1..p |-> RDiv(Cum(pts[j]) - 1, tot - 1)]
        f == [j \in 1..p |-> CdfAt(d, pts[j])]
        dens == [k \in 0..n |-> Dens(d, G, k)]
        bend(k) == ~RClose(dens[k - 1], dens[k], "1/1000000000")
        ks == SelectSeq([j \in 1..p |-> j], LAMBDA j : j = 1 \/ j = p \/ bend(pts[j]))
        line(a, b, i) == RAdd(y[a], RMul(RDiv(RSub(y[b], y[a]), RSub(x[b], x[a])), RSub(x[i], x[a])))
        se(a, b) == RSum([j \in 1..(b - a + 1) |-> SqR(RSub(line(a, b, a + j - 1), y[a + j - 1]))])
        sefit(a, b) == RSum([j \in 1..(b - a + 1) |-> SqR(RSub(f[a + j - 1], y[a + j - 1]))])
    IN IF p = 1 THEN \A c \in 1..NCells(n) : near(d[c], IF c = 2 * pts[1] THEN 1 ELSE 0)
       ELSE /\ near(d[2 * pts[1]], RDiv(cnt[pts[1]] - 1, tot - 1))
            /\ \A k \in 1..n : k # pts[1] => near(d[2 * k], 0)
            /\ \A k \in 0..n : (k < pts[1] \/ k >= pts[p]) => near(d[2 * k + 1], 0)
            /\ \A k \in (pts[1] + 1)..(pts[p] - 1) : cnt[k] = 0 => ~bend(k)
            /\ \A j \in 1..Len(ks) : near(f[ks[j]], y[ks[j]])
            /\ \A j \in 1..(Len(ks) - 1) : LET a == ks[j] b == ks[j + 1] s == sefit(a, b) IN
                    \/ b = a + 1
                    \/ RLe(s, RAdd(RMul(SqR(eps), b - a + 1), "1/1000000000"))
                    \/ \A k \in (a + 1)..(b - 1) : RLe(s, RAdd(RAdd(se(a, k), se(k, b)), "1/1000000000"))
(* Closing the gaps to the neighbouring leaves: the region that the path    *)
(* of the leaf admits beyond its data (numeric paths are intervals          *)
(* [lower, upper) ) receives the share w = 1 / (2 * number of all rows) of  *)
(* the mass, half of it on either side if there are two; an impulse becomes *)
(* uniform between its neighbours instead.                                  *)
NumOk(V, rows, R, t, path, close, total, d, eps) ==
    LET n == V[t].n G == V[t].grid
        used == {rows[r][t] \div 2 : r \in R}
        x1 == Min(used)
        xp == Max(used)
        lo == IF 1 \in path THEN 0 ELSE Min(path) \div 2
        hi == IF NCells(n) \in path THEN 0 ELSE Max(path) \div 2 + 1
        left  == lo > 0 /\ lo < x1
        right == hi > xp
        frag == (IF left THEN <<UniformOn(G, lo, x1)>> ELSE <<>>) \o (IF right THEN <<UniformOn(G, xp, hi)>> ELSE <<>>)
        u == Mix(frag, [i \in 1..Len(frag) |-> RDiv(1, Len(frag))])
        w == RDiv(1, 2 * total)
    IN IF ~close \/ path = Full(V[t]) \/ frag = <<>> THEN FitOk(V, rows, R, t, d, eps)
       ELSE IF x1 = xp THEN LET x == UniformOn(G, IF left THEN lo ELSE x1, IF right THEN hi ELSE x1) IN \A c \in 1..NCells(n) : RClose(d[c], x[c], "1/10000000")
       ELSE FitOk(V, rows, R, t, [c \in 1..NCells(n) |-> RDiv(RSub(d[c], RMul(w, u[c])), RSub(1, w))], eps)
LeafOk(V, rows, R, t, path, close, total, d) ==
    IF V[t].kind = "num" THEN NumOk(V, rows, R, t, path, close, total, d, V[t].eps)
    ELSE LET f == FitDisc(V, rows, R, t) IN \A i \in 1..V[t].n : RClose(f[i], d[i], "1/10000000")
=============================================================================
