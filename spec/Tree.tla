-------------------------------- MODULE Tree --------------------------------
(* A joint probability tree as a distribution: a mixture of leaves, each a  *)
(* prior and one distribution per variable.                                 *)
(*   V     sequence of variables [kind, n, grid]: "num" with the positions  *)
(*         of n grid points, "int" with n consecutive labels from grid[1]   *)
(*         on, "sym" with n labels                                          *)
(*   leaf  [w |-> prior, d |-> sequence of mass sequences]: 2n+1 cells for  *)
(*         a numeric variable (see Mass; cell c has the index c + 1), n     *)
(*         labels otherwise                                                 *)
(*   e     one constraint per variable: [t |-> "none"], or [t |-> "set", s] *)
(*         (s: set of indices), or [t |-> "pt", s] (one real value, the     *)
(*         grid point with the index in the singleton s)                    *)
(*   scale of a numeric variable: length, in the implementation's value     *)
(*   space, of one unit of the grid (densities refer to value space)        *)
EXTENDS Integers, Sequences, FiniteSets, Rat, Intervals, Mass, Discrete

Width(v)  == IF v.kind = "num" THEN NCells(v.n) ELSE v.n
Full(v)   == 1..Width(v)
None      == [t |-> "none"]
Within(d, S) == ProbOf(d, S)

(* an impulse counts 1 at its position, any other point by the density ...  *)
Atom(d, i)   == REq(d[i], 1) \/ RClose(d[i], 1, "1/1000000000000")
LeftDens(v, d, i)  == Dens(d, v.grid, i \div 2 - 1)         \* i: index of a grid point
RightDens(v, d, i) == Dens(d, v.grid, i \div 2)
PointLik(v, d, i) == IF Atom(d, i) THEN "1" ELSE RDiv(RightDens(v, d, i), v.scale)
(* ... which is unambiguous where the density is the same on both sides     *)
Plain(v, d, i)    == \/ Atom(d, i)
                     \/ RClose(d[i], 0, "1/1000000000") /\ RClose(LeftDens(v, d, i), RightDens(v, d, i), "1/10000000")
The(S) == CHOOSE x \in S : TRUE

Mass1(v, d, c) == IF c.t = "none" THEN "1" ELSE Within(d, c.s)
Lik1(v, d, c)  == IF c.t = "pt" /\ v.kind = "num" THEN PointLik(v, d, The(c.s)) ELSE Mass1(v, d, c)
MassIn(V, lf, e) == RMul(lf.w, RProd([i \in 1..Len(V) |-> Mass1(V[i], lf.d[i], e[i])]))
LikIn(V, lf, e)  == RMul(lf.w, RProd([i \in 1..Len(V) |-> Lik1(V[i], lf.d[i], e[i])]))
Prob(V, ls, e)   == RSum([k \in 1..Len(ls) |-> MassIn(V, ls[k], e)])
Liks(V, ls, e)   == [k \in 1..Len(ls) |-> LikIn(V, ls[k], e)]
(* impossible beyond rounding: some constrained variable has no mass (and    *)
(* no density) there at all                                                 *)
Firmly0(V, lf, e) == \/ REq(lf.w, 0)
                     \/ \E i \in 1..Len(V) : /\ e[i].t # "none"
                                             /\ \A c \in e[i].s : REq(lf.d[i][c], 0)
                                             /\ (e[i].t = "pt" /\ V[i].kind = "num") =>
                                                   \A c \in e[i].s : c \in 2..(Len(lf.d[i]) - 1) => REq(lf.d[i][c - 1], 0) /\ REq(lf.d[i][c + 1], 0)
(* ... and nothing that borders on it has any mass either                    *)
Far0(V, lf, e) == \/ REq(lf.w, 0)
                  \/ \E i \in 1..Len(V) : /\ e[i].t # "none"
                                          /\ \A c \in e[i].s : REq(lf.d[i][c], 0)
                                          /\ V[i].kind = "num" => \A c \in e[i].s : \A b \in {c - 1, c + 1} \cap (1..Len(lf.d[i])) : REq(lf.d[i][b], 0)
Noise(V, ls, e) == \E k \in 1..Len(ls) : RLe(LikIn(V, ls[k], e), "1/1000000") /\ ~Firmly0(V, ls[k], e)
And(c, d) == IF c.t = "none" THEN d ELSE IF d.t = "none" THEN c ELSE [t |-> "set", s |-> c.s \cap d.s]
Both(e, f) == [i \in 1..Len(e) |-> And(e[i], f[i])]
Infer(V, ls, q, e) == RDiv(Prob(V, ls, Both(q, e)), Prob(V, ls, e))

(* Restriction of one distribution (of positive probability or density).    *)
Restrict1(v, d, c) ==
    IF c.t = "none" THEN d
    ELSE IF c.t = "pt" \/ (Cardinality(c.s) = 1 /\ v.kind = "num") THEN [i \in 1..Len(d) |-> IF i \in c.s THEN "1" ELSE "0"]
    ELSE Condition(d, c.s)
Given(V, ls, e) ==
    LET lk == Liks(V, ls, e) tot == RSum(lk)
        on == SelectSeq([k \in 1..Len(ls) |-> k], LAMBDA k : RLt(0, lk[k]))
    IN [j \in 1..Len(on) |-> [w |-> RDiv(lk[on[j]], tot),
                              d |-> [i \in 1..Len(V) |-> Restrict1(V[i], ls[on[j]].d[i], e[i])],
                              k |-> on[j]]]
Marginal(ls, i) == Mixture([k \in 1..Len(ls) |-> ls[k].d[i]], [k \in 1..Len(ls) |-> ls[k].w])
Posterior(V, ls, e, i) == Marginal(Given(V, ls, e), i)

(* Label of index i of an integer variable                                  *)
Labels(v) == [i \in 1..v.n |-> v.grid[i]]
MeanOf(v, d) == IF v.kind = "num" THEN Mean(d, v.grid) ELSE MeanD(d, Labels(v))
MomentOf(v, d, k, c) == IF v.kind = "num" THEN Moment(d, v.grid, k, c) ELSE MomentD(d, Labels(v), k, c)
Modes(d, tol) == LET m == MaxOf({d[i] : i \in 1..Len(d)}) IN {i \in 1..Len(d) : RLe(RSub(m, tol), d[i])}

(* Merging two leaves.                                                      *)
Join(V, a, b) == LET w == RAdd(a.w, b.w) IN
    [w |-> w, d |-> [i \in 1..Len(V) |-> Mixture(<<a.d[i], b.d[i]>>, <<RDiv(a.w, w), RDiv(b.w, w)>>)]]
=============================================================================
