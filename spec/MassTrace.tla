----------------------------- MODULE MassTrace -----------------------------
(* Histories of operations on numeric distributions, as recorded from the   *)
(* implementation, checked against module Mass.  Every distribution is      *)
(* observed through its cumulative distribution function: at the grid       *)
(* points (F), immediately left of them (L), inside the gaps between them   *)
(* (M at the middle, Q at a quarter) and outside (lo, hi).                  *)
EXTENDS TraceBase, Mass

VARIABLE reg      \* register -> [m |-> masses (<<>>: unset or not judged), fp |-> fingerprint]
vars == <<h, l, reg>>

n == H.n
G == H.grid
Unset == [m |-> <<>>, fp |-> ""]
Init == h \in 1..Len(Hist) /\ l = 0 /\ reg = [r \in 1..H.k |-> Unset]
Known(r) == reg[r].m # <<>>
M_(r) == reg[r].m

(* the masses an observation shows *)
Masses(o) == [c \in 1..NCells(n) |->
    IF c = 1 THEN o.L[1]
    ELSE IF c = NCells(n) THEN RSub(1, o.F[n])
    ELSE IF c % 2 = 0 THEN RSub(o.F[c \div 2], o.L[c \div 2])
    ELSE RSub(o.L[(c - 1) \div 2 + 1], o.F[(c - 1) \div 2])]
SameMasses(d, e) == \A i \in 1..NCells(n) : Close(d[i], e[i])
Shaped(o) == LET d == Masses(o) IN
    /\ Chk("C04.monotone", \A i \in 1..NCells(n) : RLe(RNeg(Tol), d[i]), d)
    /\ Chk("C04.from-0-to-1", Close(o.lo, 0) /\ Close(o.hi, 1) /\ Close(o.F[n], 1) /\ Close(o.L[1], 0), <<o.lo, o.L[1], o.F[n], o.hi>>)
    /\ Chk("C04.linear", \A k \in 1..(n - 1) :
            /\ Close(o.M[k], RMul("1/2", RAdd(o.F[k], o.L[k + 1])))
            /\ Close(o.Q[k], RAdd(RMul("3/4", o.F[k]), RMul("1/4", o.L[k + 1]))), o)

(* Only the target may look different from before.                          *)
Purity(t) == Chk("C06.operands-unchanged",
                 \A r \in 1..H.k : r # t => E.fps[r] = reg[r].fp, <<t, E.fps, [r \in 1..H.k |-> reg[r].fp]>>)
Resync == reg' = [r \in 1..H.k |-> [reg[r] EXCEPT !.fp = E.fps[r]]]
Becomes(t, m) == reg' = [r \in 1..H.k |-> [m |-> IF r = t THEN m ELSE reg[r].m, fp |-> E.fps[r]]]
Forget(t) == Becomes(t, <<>>)

(* t now holds what the specification expects; it carries on with what is   *)
(* shown (equal up to the tolerance).                                       *)
Put(t, exp, clause) ==
    /\ Purity(t)
    /\ IF E.exc # "" THEN Chk(clause \o "-raises", FALSE, E.exc) /\ Forget(t)
       ELSE /\ Shaped(E.obs)
            /\ Chk(clause, SameMasses(exp, Masses(E.obs)), <<"expected", exp, "got", Masses(E.obs)>>)
            /\ Becomes(t, Masses(E.obs))
Skip(t) == Purity(t) /\ Forget(t)       \* not judged

Literal  == IsEvent("literal") /\ Put(E.t, LET tot == RSum(E.m) IN
                                                  [i \in 1..NCells(n) |-> IF i \in {1, NCells(n)} THEN "0" ELSE RDiv(E.m[i - 1], tot)], "C04.construct")
ImpulseE == IsEvent("impulse") /\ Put(E.t, Impulse(n, E.k), "C05.impulse")
Dup      == IsEvent("dup") /\ IF Known(E.a) THEN Put(E.t, M_(E.a), IF E.how = "copy" THEN "C06.copy" ELSE "C16.restored")
                             ELSE Skip(E.t)

Grey == "1/1000000"
CropE ==
    /\ IsEvent("crop")
    /\ IF ~Known(E.a) THEN Skip(E.t)
       ELSE LET S == Denote(n, E.ivs) p == MassOf(M_(E.a), S) IN
            IF p = "0" /\ Size(S) = 1 THEN Skip(E.t)
            ELSE IF RLt(Grey, p) THEN Put(E.t, CropTo(M_(E.a), S), "C06.crop")
            ELSE IF E.exc # "" THEN /\ Purity(0) /\ Resync
                                    /\ Chk("C06.unsatisfiable", E.exc = "Unsatisfiability", E.exc)
            ELSE /\ (p = "0" => Chk("C06.unsatisfiable", FALSE, <<"no error for", E.ivs, M_(E.a)>>))
                 /\ Skip(E.t)
(* restricting to one point: judged where there is mass or density          *)
CropPoint ==
    /\ IsEvent("croppoint")
    /\ IF ~Known(E.a) THEN Skip(E.t)
       ELSE LET d == M_(E.a) k == E.k IN
            IF RLt(Grey, d[2 * k]) \/ (k > 1 /\ k < n /\ RLt(Grey, d[2 * k - 1]) /\ RLt(Grey, d[2 * k + 1]))
            THEN Put(E.t, Impulse(n, k), "C06.crop-point")
            ELSE Skip(E.t)
MergeE ==
    /\ IsEvent("merge")
    /\ IF \A i \in 1..Len(E.src) : Known(E.src[i])
       THEN Put(E.t, Mix([i \in 1..Len(E.src) |-> M_(E.src[i])], E.w), "C06.merge") ELSE Skip(E.t)
UpdateE ==
    /\ IsEvent("update")
    /\ IF Known(E.t) /\ Known(E.a)
       THEN Put(E.t, Mix(<<M_(E.t), M_(E.a)>>, <<RSub(1, E.w), E.w>>), "C06.update") ELSE Skip(E.t)
Convex ==
    /\ IsEvent("convex")
    /\ IF ~Known(E.t) THEN Skip(E.t)
       ELSE LET fr == (IF E.left[1] > 0 THEN <<UniformOn(G, E.left[1], E.left[2])>> ELSE <<>>)
                      \o (IF E.right[1] > 0 THEN <<UniformOn(G, E.right[1], E.right[2])>> ELSE <<>>)
                u == Mix(fr, [x \in 1..Len(fr) |-> RDiv(1, Len(fr))])
                w == RDiv(1, 2 * E.samples)
            IN Put(E.t, Mix(<<M_(E.t), u>>, <<RSub(1, w), w>>), "C08.convex")

(* ------------------------------------------------------------------------ *)
(* Fitting.  E.cnt[k]: how many of the selected values equal grid point k.  *)
Total(c) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + c[i] IN S(Len(c))
Cum(c)   == LET RECURSIVE S(_) S(i) == IF i = 0 THEN <<>> ELSE LET p == S(i - 1) IN
                                       Append(p, (IF i = 1 THEN 0 ELSE p[i - 1]) + c[i]) IN S(Len(c))
Sq(x) == RMul(x, x)
Fit ==
    /\ IsEvent("fit") /\ Purity(E.t)
    /\ IF E.exc # "" THEN Chk("C05.fit-raises", FALSE, E.exc) /\ Forget(E.t)
       ELSE
       LET o   == E.obs
           pts == SelectSeq([i \in 1..n |-> i], LAMBDA k : E.cnt[k] > 0)        \* the distinct values, ascending
           p   == Len(pts)
           tot == Total(E.cnt)
           cum == Cum(E.cnt)
           y   == [i \in 1..p |-> RDiv(cum[pts[i]] - 1, tot - 1)]               \* zero-based, rescaled
           x   == [i \in 1..p |-> G[pts[i]]]
           f   == [i \in 1..p |-> o.F[pts[i]]]
           line(a, b, i) == RAdd(y[a], RMul(RDiv(RSub(y[b], y[a]), RSub(x[b], x[a])), RSub(x[i], x[a])))
           se(a, b) == RSum([j \in 1..(b - a + 1) |-> Sq(RSub(line(a, b, a + j - 1), y[a + j - 1]))])
           sefit(a, b) == RSum([j \in 1..(b - a + 1) |-> Sq(RSub(f[a + j - 1], y[a + j - 1]))])
           ks  == SelectSeq([i \in 1..p |-> i], LAMBDA i : i = 1 \/ i = p \/ \E q \in 1..Len(E.knots) : E.knots[q] = pts[i])
       IN
       /\ Shaped(o)
       /\ Chk("C05.range", /\ \A k \in 1..n : k < pts[1] => Close(o.F[k], 0)
                           /\ \A k \in 1..n : k >= pts[p] => Close(o.F[k], 1)
                           /\ Close(o.L[pts[1]], 0), o)
       /\ IF p = 1 THEN Chk("C05.single-value", SameMasses(Impulse(n, pts[1]), Masses(o)), Masses(o))
          ELSE
          /\ Chk("C05.knots-are-data", \A q \in 1..Len(E.knots) : E.knots[q] > 0 /\ E.cnt[E.knots[q]] > 0, E.knots)
          /\ Chk("C05.no-jumps-inside", \A i \in 2..p : Close(o.F[pts[i]], o.L[pts[i]]), o)
          /\ Chk("C05.through-knots", \A j \in 1..Len(ks) : Close(f[ks[j]], y[ks[j]]), <<ks, f, y>>)
          /\ Chk("C05.precision",
                 \A j \in 1..(Len(ks) - 1) : LET a == ks[j] b == ks[j + 1] s == sefit(a, b) IN
                    \/ b = a + 1
                    \/ RLe(s, RAdd(RMul(Sq(E.eps), b - a + 1), "1/1000000000"))
                    \/ \A k \in (a + 1)..(b - 1) : RLe(s, RAdd(RAdd(se(a, k), se(k, b)), "1/1000000000")),
                 <<ks, "x", x, "y", y, "f", f>>)
       /\ Becomes(E.t, Masses(o))

(* ------------------------------------------------------------------------ *)
(* Questions to one distribution.                                           *)
Jumpy(d) == \E k \in 1..n : RLt(Grey, d[2 * k])
Quantile(d, g, x) ==
    LET del == RMul("1/1000000000", RMax(1, RAbs(x))) IN
    /\ RLe(CdfXLeft(d, G, RSub(x, del)), RAdd(g, "1/10000000"))
    /\ RLe(RSub(g, "1/10000000"), CdfX(d, G, RAdd(x, del)))
GapCells(S) == {c \in S : c % 2 = 0 /\ c > 0 /\ c < 2 * n}
Ask ==
    /\ IsEvent("ask") /\ NoExc(E) /\ Purity(0) /\ Resync
    /\ IF ~Known(E.a) \/ E.exc # "" THEN TRUE
       ELSE LET d == M_(E.a) r == E.r IN
       /\ Chk("C04.probability", \A i \in 1..Len(r.p) :
              LET m == MassOf(d, Denote(n, r.p[i].ivs)) IN Close(r.p[i].p, m) /\ Close(r.p[i].q, m),
              SelectSeq(r.p, LAMBDA x : ~Close(x.p, MassOf(d, Denote(n, x.ivs))) \/ ~Close(x.q, MassOf(d, Denote(n, x.ivs)))))
       /\ Chk("C04.in-range", \A i \in 1..Len(r.p) : RLe(RNeg(Tol), r.p[i].p) /\ RLe(r.p[i].p, RAdd(1, Tol)), r.p)
       /\ Chk("C04.point-probability", \A k \in 1..n : Close(r.pt[k], d[2 * k]), <<r.pt, d>>)
       /\ Chk("C04.density", \A k \in 0..n : RClose(r.dens[k + 1], RDiv(Dens(d, G, k), H.scale), "1/1000000"), <<r.dens, d>>)
       /\ Chk("C04.quantile", \A i \in 1..Len(r.ppf) : Quantile(d, r.ppf[i].g, r.ppf[i].x) /\ REq(r.ppf[i].x, r.ppf[i].y),
              <<SelectSeq(r.ppf, LAMBDA x : ~Quantile(d, x.g, x.x) \/ ~REq(x.x, x.y)), d>>)
       /\ Chk("C19.moment", \A i \in 1..Len(r.mom) :
              LET k == r.mom[i].k c == r.mom[i].c m == Moment(d, G, k, c) IN
              \/ RClose(r.mom[i].v, m, "1/1000000")
              \* rounding errors of the masses, as far out as the grid goes
              \/ RLe(RAbs(RSub(r.mom[i].v, m)), RMul("1/1000000000", RAdd(Pow(RAbs(RSub(G[1], c)), k), Pow(RAbs(RSub(G[n], c)), k)))),
              <<r.mom, [i \in 1..Len(r.mom) |-> Moment(d, G, r.mom[i].k, r.mom[i].c)], d>>)
       /\ Chk("C19.expectation", RClose(r.mean, Mean(d, G), "1/1000000"), <<r.mean, Mean(d, G), d>>)
       /\ Chk("C19.variance", RClose(r.var, Var(d, G), "1/1000000"), <<r.var, Var(d, G), d>>)
       /\ Chk("C17.support", \A i \in 1..Len(r.smp) : LET c == r.smp[i] IN
              c >= 0 /\ (\/ RLt("1/100000000000", d[c + 1])
                         \/ c % 2 = 1 /\ (RLt("1/100000000000", d[c]) \/ RLt("1/100000000000", d[c + 2]))), <<r.smp, d>>)
       /\ (r.freq # <<>> => Chk("C17.frequency", \A c \in 1..NCells(n) :
              LET N == H.samples f == RDiv(r.freq[c], N) p == d[c] IN
              RLe(Sq(RSub(f, p)), RAdd(RDiv(RMul(36, RMul(RAbs(p), RSub(1, p))), N), RDiv(9, N * N))), <<r.freq, d>>))
(* The most probable states: E.dens is the density the distribution itself  *)
(* reports inside each gap (tied to the masses by C04.density).             *)
StateIs(st, S, dens) == LET T == SetOf(st) IN
    /\ \A i \in 1..Len(st) : st[i] >= 0
    /\ GapCells(T) = S
    \* single points at the edges, which closed ends may add
    /\ \A c \in T \ GapCells(T) : \E k \in {(c - 1) \div 2, (c + 1) \div 2} : k \in 1..(n - 1) /\ RLt(0, dens[k])
Mpe ==
    /\ IsEvent("mpe") /\ Purity(0) /\ Resync
    /\ IF ~Known(E.a) THEN TRUE
       ELSE LET d == M_(E.a)
                lv == {E.dens[k] : k \in {k \in 1..(n - 1) : RLt(0, E.dens[k])}}
                at(v) == {2 * k : k \in {k \in 1..(n - 1) : E.dens[k] = v}} IN
       IF IsImpulse(d) THEN
            /\ NoExc(E)
            /\ (E.exc = "" => Chk("C14.impulse-mode", /\ Len(E.all) = 1 /\ E.all[1].lik = "inf" /\ E.mode.lik = "inf"
                                   /\ \E k \in 1..n : Close(d[2 * k], 1) /\ SetOf(E.mode.st) = {2 * k - 1} /\ SetOf(E.all[1].st) = {2 * k - 1}, <<d, E>>))
       ELSE IF lv = {} THEN TRUE
       ELSE /\ NoExc(E)
            /\ (E.exc = "" =>
              /\ Chk("C14.mode", E.mode = E.all[1] /\ RLe(MaxOf(lv), E.mode.lik), <<E.mode, E.dens, d>>)
              /\ LET proper == SelectSeq(E.all, LAMBDA x : GapCells(SetOf(x.st)) # {})
                     \* single points where neighbouring pieces overlap by their closed ends
                     points == SelectSeq(E.all, LAMBDA x : GapCells(SetOf(x.st)) = {}) IN
                 /\ Chk("C15.levels", {proper[i].lik : i \in 1..Len(proper)} = lv /\ Len(proper) = Cardinality(lv), <<E.all, lv>>)
                 /\ Chk("C15.level-states", \A i \in 1..Len(proper) : StateIs(proper[i].st, at(proper[i].lik), E.dens), <<E.all, E.dens>>)
                 /\ Chk("C15.level-points", \A i \in 1..Len(points) : \A c \in SetOf(points[i].st) :
                        RLe(points[i].lik, RMul("1000001/1000000",
                            RAdd(IF c < 2 THEN "0" ELSE E.dens[(c - 1) \div 2], IF c > 2 * n - 2 THEN "0" ELSE E.dens[(c + 1) \div 2]))), <<E.all, E.dens>>)
              /\ Chk("C15.order", \A i \in 1..(Len(E.all) - 1) : RLt(E.all[i + 1].lik, E.all[i].lik), E.all)
              /\ Chk("C15.limit", E.two = SubSeq(E.all, 1, IF Len(E.all) < 2 THEN Len(E.all) ELSE 2), <<E.two, E.all>>))
Pair ==
    /\ IsEvent("pair") /\ NoExc(E) /\ Purity(0) /\ Resync
    /\ IF ~Known(E.a) \/ ~Known(E.b) \/ E.exc # "" THEN TRUE
       ELSE LET d == M_(E.a) e == M_(E.b) IN
       /\ Chk("C16.equal", (E.eq => SameMasses(d, e)) /\ (E.a = E.b => E.eq), <<E.eq, d, e>>)
       /\ (E.same => Chk("C05.row-order", SameMasses(d, e), <<d, e>>))
       /\ Chk("C18.similarity", RClose(E.jac, Jaccard(d, e), "1/1000000"), <<E.jac, Jaccard(d, e), d, e>>)
Next == \/ Literal \/ ImpulseE \/ Dup \/ CropE \/ CropPoint \/ MergeE \/ UpdateE \/ Convex \/ Fit \/ Ask \/ Mpe \/ Pair
Spec == Init /\ [][Next]_vars
=============================================================================
