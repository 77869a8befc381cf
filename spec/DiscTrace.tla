----------------------------- MODULE DiscTrace -----------------------------
(* Histories of operations on symbolic, boolean and integer distributions,  *)
(* as recorded from the implementation, checked against module Discrete.    *)
(* A distribution is observed through the probabilities of its single       *)
(* labels.  H.lab: the labels as numbers (integer domains; <<>> otherwise). *)
EXTENDS TraceBase, Discrete
VARIABLE reg      \* register -> [m |-> probabilities (<<>>: unset), fp |-> fingerprint]
vars == <<h, l, reg>>
n == H.n
Init == h \in 1..Len(Hist) /\ l = 0 /\ reg = [r \in 1..H.k |-> [m |-> <<>>, fp |-> ""]]
M_(r) == reg[r].m
Known(r) == reg[r].m # <<>>
Same(d, e) == Len(d) = Len(e) /\ \A i \in 1..Len(d) : Close(d[i], e[i])
Purity(t) == Chk("C07.operands-unchanged", \A r \in 1..H.k : r # t => E.fps[r] = reg[r].fp, <<t, E.fps>>)
Becomes(t, m) == reg' = [r \in 1..H.k |-> [m |-> IF r = t THEN m ELSE reg[r].m, fp |-> E.fps[r]]]
Put(t, exp, clause) ==
    /\ Purity(t)
    /\ IF E.exc # "" THEN Chk(clause \o "-raises", FALSE, E.exc) /\ Becomes(t, <<>>)
       ELSE /\ Chk("C07.vector", Len(E.obs) = n /\ Close(RSum(E.obs), 1) /\ \A i \in 1..Len(E.obs) : RLe(0, E.obs[i]), E.obs)
            /\ Chk(clause, Same(exp, E.obs), <<"expected", exp, "got", E.obs>>)
            /\ Becomes(t, IF Len(E.obs) = n THEN E.obs ELSE <<>>)
Skip(t) == Purity(t) /\ Becomes(t, <<>>)
Props(f) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE S(i - 1) + f[i] IN [i \in 1..n |-> RDiv(f[i], S(n))]

SetE     == IsEvent("set") /\ Put(E.t, Props(E.m), "C07.set")
FitE     == IsEvent("fit") /\ Put(E.t, Props(E.m), "C07.fit")
ImpulseE == IsEvent("impulse") /\ (IF Known(E.a) THEN Put(E.t, Point(n, E.k), "C07.impulse") ELSE Skip(E.t))
DupE     == IsEvent("dup") /\ (IF Known(E.a) THEN /\ Put(E.t, M_(E.a), IF E.how = "copy" THEN "C07.copy" ELSE "C16.restored")
                                                  /\ (E.exc = "" => Chk("C16.equal-restored", E.eq, E.how))
                               ELSE Skip(E.t))
CropE ==
    /\ IsEvent("crop")
    /\ IF ~Known(E.a) THEN Skip(E.t)
       ELSE LET S == SetOf(E.s) p == ProbOf(M_(E.a), S) IN
            IF REq(p, 0) THEN /\ Purity(0) /\ UNCHANGED reg
                              /\ Chk("C07.unsatisfiable", E.exc = "Unsatisfiability", <<E.exc, E.s, M_(E.a)>>)
            ELSE Put(E.t, Condition(M_(E.a), S), "C07.crop")
MergeE == IsEvent("merge") /\ (IF \A i \in 1..Len(E.src) : Known(E.src[i])
                               THEN Put(E.t, Mixture([i \in 1..Len(E.src) |-> M_(E.src[i])], E.w), "C07.merge") ELSE Skip(E.t))
UpdateE == IsEvent("update") /\ (IF Known(E.t) /\ Known(E.a)
                                 THEN Put(E.t, Mixture(<<M_(E.t), M_(E.a)>>, <<RSub(1, E.w), E.w>>), "C07.update") ELSE Skip(E.t))
(* assigning the probability of one truth value determines the other        *)
AssignE == IsEvent("assign") /\ (IF Known(E.t) THEN Put(E.t, [i \in 1..2 |-> IF i = E.k THEN E.p ELSE RSub(1, E.p)], "C07.assign") ELSE Skip(E.t))

Ranked(all, d) ==        \* all: sequence of [st |-> label indices, lik]
    /\ \A i \in 1..(Len(all) - 1) : RLt(all[i + 1].lik, all[i].lik)
    /\ {all[i].lik : i \in 1..Len(all)} = LevelsD(d)
    /\ \A i \in 1..Len(all) : SetOf(all[i].st) = AtLevel(d, all[i].lik)
Ask ==
    /\ IsEvent("ask") /\ NoExc(E) /\ Purity(0) /\ UNCHANGED reg
    /\ IF ~Known(E.a) \/ E.exc # "" THEN TRUE
       ELSE LET d == M_(E.a) r == E.r IN
       /\ Chk("C07.probability", \A i \in 1..Len(r.p) : LET m == ProbOf(d, SetOf(r.p[i].s)) IN
              Close(r.p[i].p, m) /\ Close(r.p[i].q, m), <<r.p, d>>)
       /\ Chk("C07.label-probability", \A i \in 1..n : REq(r.lab[i], d[i]) /\ REq(r.pdf[i], d[i]), <<r.lab, r.pdf, d>>)
       /\ Chk("C07.labels", r.round = [i \in 1..n |-> i], r.round)
       /\ Chk("C07.unknown-label", r.unknown # "", "no error")
       /\ Chk("C07.items", Same(r.items, d), <<r.items, d>>)
       /\ Chk("C07.sorted", \A i \in 1..(n - 1) : RLe(d[r.sorted[i + 1]], d[r.sorted[i]]) /\ SetOf(r.sorted) = 1..n, <<r.sorted, d>>)
       /\ Chk("C07.mode", r.all # <<>> /\ r.mode = r.all[1] /\ r.mode.lik \in LevelsD(d) /\ \A y \in LevelsD(d) : RLe(y, r.mode.lik), <<r.mode, d>>)
       /\ Chk("C07.ranked", Ranked(r.all, d), <<r.all, d>>)
       /\ Chk("C07.ranked-limit", r.two = SubSeq(r.all, 1, IF Len(r.all) < 2 THEN Len(r.all) ELSE 2), <<r.two, r.all>>)
       /\ Chk("C07.impulse-test", r.dirac = (\E i \in 1..n : d[i] = "1"), <<r.dirac, d>>)
       /\ Chk("C17.support", \A i \in 1..Len(r.smp) : r.smp[i] > 0 /\ RLt(0, d[r.smp[i]]), <<r.smp, d>>)
       /\ Chk("C17.wheel", \A i \in 1..Len(r.wheel) : LET x == r.wheel[i].x k == r.wheel[i].i c == RSum(SubSeq(d, 1, k)) IN
              RLt(0, d[k]) /\ RLe(x, RAdd(c, Tol)) /\ RLe(RSub(RSub(c, d[k]), Tol), x), <<r.wheel, d>>)
       /\ (r.freq # <<>> => Chk("C17.frequency", \A c \in 1..n :
              LET N == H.samples f == RDiv(r.freq[c], N) p == d[c] IN
              RLe(Power(RSub(f, p), 2), RAdd(RDiv(RMul(36, RMul(RAbs(p), RSub(1, p))), N), RDiv(9, N * N))), <<r.freq, d>>))
       /\ (H.lab # <<>> =>
            /\ Chk("C19.int-moment", \A i \in 1..Len(r.mom) : RClose(r.mom[i].v, MomentD(d, H.lab, r.mom[i].k, r.mom[i].c), "1/1000000"), <<r.mom, d>>)
            /\ Chk("C19.int-expectation", RClose(r.mean, MeanD(d, H.lab), Tol), <<r.mean, d>>)
            /\ Chk("C19.int-variance", RClose(r.var, VarD(d, H.lab), Tol), <<r.var, d>>)
            /\ Chk("C07.value-moments", RClose(RAdd(r.vmean, H.lab[1]), MeanD(d, H.lab), Tol) /\ RClose(r.vvar, VarD(d, H.lab), Tol), <<r.vmean, r.vvar, d>>))
Pair ==
    /\ IsEvent("pair") /\ NoExc(E) /\ Purity(0) /\ UNCHANGED reg
    /\ IF ~Known(E.a) \/ ~Known(E.b) \/ E.exc # "" THEN TRUE
       ELSE LET d == M_(E.a) e == M_(E.b) IN
       /\ Chk("C16.equal", E.eq = (\A i \in 1..n : d[i] = e[i]), <<E.eq, d, e>>)
       /\ Chk("C16.other-domain", ~E.eqother, "equal to a distribution over a larger domain")
       /\ Chk("C18.similarity", Close(E.jac, Overlap(d, e)), <<E.jac, d, e>>)
       /\ (H.lab # <<>> => Chk("C07.sum", Same(E.sum, Convolve(d, e)) /\ E.sumlab = [i \in 1..(2 * n - 1) |-> RAdd(RMul(2, H.lab[1]), i - 1)], <<E.sum, d, e>>))
Next == SetE \/ FitE \/ ImpulseE \/ DupE \/ CropE \/ MergeE \/ UpdateE \/ AssignE \/ Ask \/ Pair
Spec == Init /\ [][Next]_vars
=============================================================================
