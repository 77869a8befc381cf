----------------------------- MODULE TreeTrace -----------------------------
(* Histories of learning trees, transforming them and asking them, as       *)
(* recorded from the implementation, checked against modules Tree and       *)
(* Learn.  A tree is observed through its nodes (splits and paths as sets   *)
(* of indices) and through the cumulative distribution functions and        *)
(* probability vectors of its leaves.                                       *)
EXTENDS TraceBase, Learn

VARIABLE reg      \* register -> [t |-> observed tree (<<>>: none or not known any more), fp |-> fingerprint,
                  \*              cut |-> single points <<v, i>> that conditioning has excluded or merging set apart]
vars == <<h, l, reg>>

V == H.V
NV == Len(V)
Unset == [t |-> <<>>, fp |-> "", cut |-> {}]
Init == h \in 1..Len(Hist) /\ l = 0 /\ reg = [r \in 1..H.k |-> Unset]
Known(r) == reg[r].t # <<>>
T_(r) == reg[r].t

Grey == "1/1000000"
Eq(a, b) == RClose(a, b, "1/10000000")
SameD(d, e) == Len(d) = Len(e) /\ \A i \in 1..Len(d) : Eq(d[i], e[i])

(* constraints *)
Con(v, j) == IF j.t = "none" THEN None
             ELSE IF j.t = "pt" THEN [t |-> "pt", s |-> {2 * j.k}]
             ELSE IF j.t = "lab" THEN [t |-> "set", s |-> SetOf(j.s)]
             ELSE LET s == {c + 1 : c \in Denote(V[v].n, j.ivs)} IN
                  [t |-> IF Cardinality(s) = 1 /\ \A c \in s : c % 2 = 0 THEN "pt" ELSE "set", s |-> s]
Cons(js) == [i \in 1..NV |-> Con(i, js[i])]
Sharp(ls, e) == \A k \in 1..Len(ls) : \A i \in 1..NV :
                  (e[i].t = "pt" /\ V[i].kind = "num") => Plain(V[i], ls[k].d[i], The(e[i].s)) /\ <<i, The(e[i].s)>> \notin reg[E.a].cut

Purity(t) ==
    /\ Chk("C13.model-unchanged", \A r \in 1..H.k : r # t => E.fps[r] = reg[r].fp, <<t, E.op>>)
    /\ Chk("C13.arguments-unchanged", E.args, E.op)
    /\ Chk("C13.repeatable", E.again, E.op)
(* where the support of some leaf begins or ends: both ends belong to it,   *)
(* so that the density of a merged leaf is higher at the very point         *)
Ends(o) == {<<i, c>> \in (1..NV) \X (1..MaxOf({Width(V[j]) : j \in 1..NV})) :
              /\ V[i].kind = "num" /\ c % 2 = 0 /\ c <= Width(V[i])
              /\ \E k \in 1..Len(o.leaves) : LET d == o.leaves[k].d[i] IN RLe(d[c - 1], Tol) # RLe(d[c + 1], Tol)}
Cut == IF E.op = "dup" THEN reg[E.a].cut
       ELSE IF E.op = "prune" THEN reg[E.a].cut \cup Ends(reg[E.a].t)
       ELSE IF E.op = "cond" THEN reg[E.a].cut \cup
            UNION {{<<i, c>> : c \in Full(V[i]) \ Con(i, E.e[i]).s} : i \in {i \in 1..NV : V[i].kind = "num" /\ E.e[i].t # "none"}}
       ELSE IF E.op = "mulprior" THEN reg[E.t].cut ELSE {}
Becomes(t, o) == reg' = [r \in 1..H.k |-> [t |-> IF r = t THEN o ELSE reg[r].t, fp |-> E.fps[r], cut |-> IF r = t THEN Cut ELSE reg[r].cut]]
Resync == reg' = [r \in 1..H.k |-> [reg[r] EXCEPT !.fp = E.fps[r]]]
Ask == Purity(0) /\ Resync

(* ------------------------------------------------------------------------ *)
(* The structure of a tree.                                                 *)
Nodes(o) == {o.nodes[k].i : k \in 1..Len(o.nodes)}
Leafs(o) == {o.leaves[k].i : k \in 1..Len(o.leaves)}
NodeOf(o, i) == o.nodes[CHOOSE k \in 1..Len(o.nodes) : o.nodes[k].i = i]
LeafOf(o, i) == o.leaves[CHOOSE k \in 1..Len(o.leaves) : o.leaves[k].i = i]
(* all nodes reachable from i, each as [i, par, path]                       *)
RECURSIVE Walk(_, _, _, _, _)
Walk(o, i, par, path, fuel) ==
    {[i |-> i, par |-> par, path |-> path, depth |-> 12 - fuel]} \cup
    IF i \notin Nodes(o) \/ fuel = 0 THEN {}
    ELSE LET nd == NodeOf(o, i) IN
         UNION {Walk(o, nd.ch[c], i, [path EXCEPT ![nd.v] = @ \cap SetOf(nd.sp[c])], fuel - 1) : c \in 1..Len(nd.ch)}
FullPath == [v \in 1..NV |-> Full(V[v])]
WalkAll(o) == Walk(o, o.root, -1, FullPath, 12)
PathOf(x) == [v \in 1..NV |-> SetOf(x.path[v])]
Tree_(o, pre, whole) ==
    LET w == WalkAll(o) IN
    /\ Chk(pre \o ".structure",
           /\ {x.i : x \in w} = Nodes(o) \cup Leafs(o)
           /\ Nodes(o) \cap Leafs(o) = {}
           /\ Cardinality(w) = Len(o.nodes) + Len(o.leaves)
           /\ \A x \in w : LET nd == IF x.i \in Nodes(o) THEN NodeOf(o, x.i) ELSE LeafOf(o, x.i) IN
                              nd.par = x.par /\ PathOf(nd) = x.path
           /\ \A k \in 1..Len(o.nodes) : Len(o.nodes[k].ch) = Len(o.nodes[k].sp) /\ Len(o.nodes[k].ch) \in (IF whole THEN {2} ELSE {1, 2}),
           <<o.root, o.nodes, [k \in 1..Len(o.leaves) |-> [o.leaves[k] EXCEPT !.d = <<>>]]>>)
    /\ Chk(pre \o ".splits", \A k \in 1..Len(o.nodes) : LET nd == o.nodes[k] IN
           /\ \A c \in 1..Len(nd.sp) : SetOf(nd.sp[c]) \subseteq Full(V[nd.v]) /\ nd.sp[c] # <<>>
           /\ (Len(nd.sp) = 2 => SetOf(nd.sp[1]) \cap SetOf(nd.sp[2]) = {})
           /\ (whole => SetOf(nd.sp[1]) \cup SetOf(nd.sp[2]) = Full(V[nd.v])), o.nodes)
    /\ Chk(pre \o ".proper-leaves",
           /\ Eq(RSum([k \in 1..Len(o.leaves) |-> o.leaves[k].w]), 1)
           /\ \A k \in 1..Len(o.leaves) : \A v \in 1..NV : Eq(RSum(o.leaves[k].d[v]), 1) /\ \A i \in 1..Width(V[v]) : RLe(RNeg(Tol), o.leaves[k].d[v][i]),
           o.leaves)
SameTree(o, p) ==
    /\ o.root = p.root /\ Nodes(o) = Nodes(p) /\ Leafs(o) = Leafs(p)
    /\ \A i \in Nodes(o) : NodeOf(o, i) = NodeOf(p, i)
    /\ \A i \in Leafs(o) : LET a == LeafOf(o, i) b == LeafOf(p, i) IN
          /\ a.par = b.par /\ Eq(a.w, b.w) /\ a.n = b.n /\ PathOf(a) = PathOf(b)
          /\ \A v \in 1..NV : SameD(a.d[v], b.d[v])

(* ------------------------------------------------------------------------ *)
(* Learning.                                                                *)
Rows == E.rows
NR == Len(Rows)
Par_ == [targets |-> SetOf(E.P.targets), features |-> SetOf(E.P.features),
         deps |-> [v \in 1..NV |-> SetOf(E.P.deps[v])],
         msl |-> IF E.P.frac = "" THEN E.P.msl ELSE LET f == RFloor(RMul(E.P.frac, NR)) IN IF f < 1 THEN 1 ELSE f,
         mii |-> E.P.mii, md |-> E.P.md]
RowsIn(path) == {r \in 1..NR : \A v \in 1..NV : Rows[r][v] \in path[v]}
Learn ==
    /\ IsEvent("learn") /\ Purity(E.t)
    /\ IF E.exc # "" THEN Chk("C08.learn-raises", FALSE, E.exc) /\ Becomes(E.t, <<>>)
       ELSE
       LET o == E.tree p == Par_ w == WalkAll(o)
           reach == [x \in w |-> RowsIn(x.path)]
           lv == {x \in w : x.i \in Leafs(o)}
           inner == {x \in w : x.i \in Nodes(o)}
       IN
       /\ Tree_(o, "C08", TRUE)
       /\ Chk("C08.prior", \A x \in lv : LET lf == LeafOf(o, x.i) IN
              Eq(lf.w, RDiv(Cardinality(reach[x]), NR)) /\ lf.n = Cardinality(reach[x]), [x \in lv |-> <<x.i, reach[x], LeafOf(o, x.i).w, LeafOf(o, x.i).n>>])
       /\ Chk("C08.node-samples", \A x \in inner : NodeOf(o, x.i).n = Cardinality(reach[x]), o.nodes)
       /\ Chk("C08.min-samples", (NR >= p.msl) => \A x \in lv : Cardinality(reach[x]) >= p.msl, [x \in lv |-> <<x.i, reach[x]>>])
       /\ Chk("C08.depth", p.md >= 0 => \A x \in lv : x.depth <= p.md, [x \in lv |-> <<x.i, x.depth>>])
       /\ \A x \in lv : reach[x] # {} => \A v \in 1..NV :
              Chk("C08.distribution", LeafOk(V, Rows, reach[x], v, x.path[v], E.close, NR, LeafOf(o, x.i).d[v]), <<"leaf", x.i, "variable", v, reach[x], x.path[v], LeafOf(o, x.i).d[v]>>)
       /\ \A v \in 1..NV : Chk("C08.prior-distribution", LeafOk(V, Rows, 1..NR, v, Full(V[v]), FALSE, NR, o.pri[v]), <<v, o.pri[v]>>)
       /\ Chk("C08.kept-rows", E.kept = <<>> \/ \A x \in lv : \E k \in 1..Len(E.kept) : E.kept[k].i = x.i /\ SetOf(E.kept[k].r) = reach[x], E.kept)
       /\ Chk("C08.encode", \A r \in 1..NR : \E x \in lv : x.i = E.enc[r] /\ r \in reach[x], <<E.enc, [x \in lv |-> <<x.i, reach[x]>>]>>)
       /\ \A x \in inner : LET nd == NodeOf(o, x.i) R == reach[x]
                               A == {r \in R : Rows[r][nd.v] \in SetOf(nd.sp[1])}
                               best(gs, ok(_, _)) == LET mine == {y \in gs : y.c.f = nd.v /\ y.c.a = A} IN \A y \in mine : ok(gs, y.g)
                               maximal(gs, g) == RLe(RSub(MaxGain(gs), "1/1000000000"), g)
                               enough(gs, g) == RLe(RSub(p.mii, "1/1000000000"), g)
                               m == Gains(V, Rows, p, "mean", R) u == Gains(V, Rows, p, "running", R)
                           IN
             /\ Chk("C09.feature", nd.v \in p.features, nd.v)
             /\ Chk("C09.admissible", [f |-> nd.v, a |-> A] \in Candidates(V, Rows, p, R), <<nd, R, A>>)
             /\ Chk("C09.maximal", best(m, maximal) \/ best(u, maximal), <<nd, R, A, m, u>>)
             /\ Chk("C09.enough", best(m, enough) \/ best(u, enough), <<nd, R, A, m, u, p.mii>>)
             /\ Chk("C09.split-form", m = {} \/ A = {} \/ A = R \/ SetOf(nd.sp[1]) = LeftSet(V, Rows, nd.v, R, A), <<nd, R, A>>)
             /\ (H.strict => Chk("C09.maximal-mean", best(m, maximal), <<nd, R, A, m>>))
       /\ \A x \in lv : LET R == reach[x] few(agg) == LET gs == Gains(V, Rows, p, agg, R) IN gs = {} \/ RLe(MaxGain(gs), RAdd(p.mii, "1/1000000000")) IN
             Chk("C09.leaf", R = {} \/ (p.md >= 0 /\ x.depth >= p.md) \/ few("mean") \/ few("running"), <<x.i, R, Gains(V, Rows, p, "mean", R), p.mii>>)
       /\ Becomes(E.t, o)

(* ------------------------------------------------------------------------ *)
(* Transformations.                                                         *)
Dup ==
    /\ IsEvent("dup") /\ Purity(E.t)
    /\ IF E.exc # "" THEN Chk("C16.restore-raises", FALSE, <<E.how, E.exc>>) /\ Becomes(E.t, <<>>)
       ELSE /\ Chk("C16.restored", SameTree(T_(E.a), E.tree) /\ \A v \in 1..NV : SameD(T_(E.a).pri[v], E.tree.pri[v]), <<E.how, T_(E.a), E.tree>>)
            /\ Chk("C16.equal-restored", E.eq, E.how)
            /\ Chk("C16.same-json", E.json = "", <<E.how, E.json>>)
            /\ Becomes(E.t, E.tree)
(* what the register holds afterwards: conditioning on impossible evidence  *)
(* leaves it as it is                                                       *)
Outcome == IF E.exc = "" /\ ~E.none THEN E.tree ELSE IF E.exc \in {"", "Unsatisfiability"} THEN T_(E.t) ELSE <<>>
Cond ==
    /\ IsEvent("cond")
    /\ LET o == T_(E.a) e == Cons(E.e) ls == o.leaves lk == Liks(V, ls, e) tot == RSum(lk)
           grey == ~Sharp(ls, e) \/ Noise(V, ls, e) IN
       IF grey THEN Purity(E.t) /\ Becomes(E.t, IF Noise(V, ls, e) THEN <<>> ELSE Outcome)
       ELSE IF REq(tot, 0) /\ \E k \in 1..Len(ls) : ~Far0(V, ls[k], e)
            THEN Purity(E.t) /\ Becomes(E.t, IF E.exc # "" \/ E.none THEN Outcome ELSE <<>>) /\ Chk("C12.raises", E.exc \in {"", "Unsatisfiability"}, <<E.exc, E.e>>)
       ELSE IF REq(tot, 0) THEN Purity(E.t) /\ Becomes(E.t, Outcome) /\ Chk("C12.unsatisfiable", IF E.fail THEN E.exc = "Unsatisfiability" ELSE E.exc = "" /\ E.none, <<E.exc, E.none>>)
       ELSE /\ Purity(E.t)
            /\ IF E.exc # "" \/ E.none THEN Chk("C12.raises", FALSE, <<E.exc, E.e>>) /\ Becomes(E.t, Outcome)
               ELSE LET g == Given(V, ls, e) c == E.tree
                        must == {ls[g[j].k].i : j \in 1..Len(g)}
                        \* leaves that rounding has kept: they border on the evidence, and weigh nothing
                        border == {ls[k].i : k \in {k \in 1..Len(ls) : ~Far0(V, ls[k], e)}}
                        extra == Leafs(c) \ must IN
                 /\ Tree_(c, "C12", FALSE)
                 /\ Chk("C12.surviving", must \subseteq Leafs(c) /\ extra \subseteq border /\ \A i \in extra : RLe(LeafOf(c, i).w, "1/1000000000"), <<Leafs(c), lk>>)
                 /\ Chk("C12.leaf-priors", \A j \in 1..Len(g) : LET i == ls[g[j].k].i IN i \in Leafs(c) => Eq(LeafOf(c, i).w, g[j].w), <<E.e, [j \in 1..Len(g) |-> g[j].w], [k \in 1..Len(c.leaves) |-> c.leaves[k].w]>>)
                 /\ Chk("C12.leaf-distributions", \A j \in 1..Len(g) : LET i == ls[g[j].k].i IN i \in Leafs(c) => \A v \in 1..NV : SameD(LeafOf(c, i).d[v], g[j].d[v]),
                        <<E.e, g, [k \in 1..Len(c.leaves) |-> c.leaves[k].d]>>)
                 /\ Chk("C12.priors", \A v \in 1..NV : SameD(c.pri[v], IF \A i \in 1..NV : e[i].t = "none" THEN o.pri[v] ELSE Marginal(g, v)), <<c.pri, [v \in 1..NV |-> Marginal(g, v)]>>)
                 /\ Chk("C12.nodes", Nodes(c) \subseteq Nodes(o) /\ \A i \in Nodes(c) : NodeOf(c, i).v = NodeOf(o, i).v /\ \A s \in SetOf(NodeOf(c, i).sp) : s \in SetOf(NodeOf(o, i).sp), c.nodes)
                 /\ Becomes(E.t, IF extra = {} THEN c ELSE <<>>)
MulPrior ==
    /\ IsEvent("mulprior") /\ Purity(E.t)
    /\ LET o == T_(E.t) w == [k \in 1..Len(o.leaves) |-> RMul(o.leaves[k].w, E.w[k])] tot == RSum(w) IN
       IF E.exc # "" THEN Chk("C12.multiply-raises", FALSE, E.exc) /\ Becomes(E.t, <<>>)
       ELSE /\ Chk("C12.multiply", SameTree([o EXCEPT !.leaves = [k \in 1..Len(o.leaves) |-> [o.leaves[k] EXCEPT !.w = RDiv(w[k], tot)]]], E.tree), <<E.w, E.tree.leaves>>)
            /\ Becomes(E.t, E.tree)

(* Pruning: bottom-up merging of sibling leaves that are similar enough on  *)
(* average over the variables that the split is not about.  A result is     *)
(* [lf: is a leaf, w, d, n, kids]; "grey" marks a decision too close to the *)
(* threshold.                                                               *)
Overlap1(v, d, e) == IF v.kind = "num" THEN Jaccard(d, e) ELSE Overlap(d, e)
Similar(a, b, x) ==
    LET s == SeqOf((1..NV) \ {x}) IN
    IF s = <<>> THEN "nan" ELSE RDiv(RSum([j \in 1..Len(s) |-> Overlap1(V[s[j]], a.d[s[j]], b.d[s[j]])]), Len(s))
RECURSIVE Pruned(_, _, _)
Pruned(o, i, thr) ==
    IF i \in Leafs(o) THEN LET lf == LeafOf(o, i) IN [lf |-> TRUE, i |-> i, w |-> lf.w, d |-> lf.d, n |-> lf.n, kids |-> <<>>, grey |-> FALSE]
    ELSE IF Len(NodeOf(o, i).ch) # 2 THEN
         LET kids == [c \in 1..Len(NodeOf(o, i).ch) |-> Pruned(o, NodeOf(o, i).ch[c], thr)] IN
         [lf |-> FALSE, i |-> i, w |-> "0", d |-> <<>>, n |-> 0, kids |-> kids, grey |-> \E c \in 1..Len(kids) : kids[c].grey]
    ELSE LET nd == NodeOf(o, i)
             a == Pruned(o, nd.ch[1], thr) b == Pruned(o, nd.ch[2], thr)
             s == IF a.lf /\ b.lf THEN Similar(a, b, nd.v) ELSE "nan"
             j == Join(V, a, b)
             stay == [lf |-> FALSE, i |-> i, w |-> "0", d |-> <<>>, n |-> 0, kids |-> <<a, b>>, grey |-> a.grey \/ b.grey]
         IN IF ~(a.lf /\ b.lf) \/ RIsNaN(s) THEN stay
            ELSE IF RClose(s, thr, "1/100000") THEN [stay EXCEPT !.grey = TRUE]
            ELSE IF RLe(thr, s) THEN [lf |-> TRUE, i |-> -1, w |-> j.w, d |-> j.d, n |-> a.n + b.n, kids |-> <<>>, grey |-> a.grey \/ b.grey]
            ELSE stay
RECURSIVE Matches(_, _, _)
Matches(o, i, p) ==
    IF p.lf THEN /\ i \in Leafs(o)
                 /\ LET lf == LeafOf(o, i) IN
                    (p.i >= 0 => i = p.i) /\ Eq(lf.w, p.w) /\ lf.n = p.n /\ \A v \in 1..NV : SameD(lf.d[v], p.d[v])
    ELSE i \in Nodes(o) /\ i = p.i /\ Len(NodeOf(o, i).ch) = Len(p.kids) /\ \A c \in 1..Len(p.kids) : Matches(o, NodeOf(o, i).ch[c], p.kids[c])
Whole(o) == \A k \in 1..Len(o.nodes) : Len(o.nodes[k].ch) = 2
Jumps(o) == \E k \in 1..Len(o.leaves) : \E v \in 1..NV : V[v].kind = "num" /\ \E i \in 1..V[v].n : RLt("1/1000000000", o.leaves[k].d[v][2 * i])
Prune ==
    /\ IsEvent("prune") /\ Purity(E.t)
    /\ LET o == T_(E.a) p == Pruned(o, o.root, E.thr) c == E.tree IN
       IF E.exc # "" THEN Chk("C18.prune-raises", FALSE, E.exc) /\ Becomes(E.t, <<>>)
       ELSE /\ Tree_(c, "C18", FALSE)
            /\ (~p.grey /\ ~E.jumpy => Chk("C18.merged", Matches(c, c.root, p), <<E.thr, p, c>>))
            /\ Chk("C18.marginals", \A v \in 1..NV : SameD(Marginal(o.leaves, v), Marginal(c.leaves, v)), c)
            /\ Chk("C18.samples", RSum([k \in 1..Len(o.leaves) |-> RNorm(o.leaves[k].n)]) = RSum([k \in 1..Len(c.leaves) |-> RNorm(c.leaves[k].n)]), c.leaves)
            /\ Chk("C18.tree-priors", \A v \in 1..NV : SameD(o.pri[v], c.pri[v]), c.pri)
            /\ Becomes(E.t, c)

(* ------------------------------------------------------------------------ *)
(* Questions.                                                               *)
Ls == T_(E.a).leaves
InferE ==
    /\ IsEvent("infer") /\ Ask
    /\ LET q == Cons(E.q) e == Cons(E.e) pe == Prob(V, Ls, e) IN
       IF \A k \in 1..Len(Ls) : Far0(V, Ls[k], e) THEN Chk("C10.unsatisfiable", IF E.fail THEN E.exc \in {"ValueError", "Unsatisfiability"} ELSE E.exc = "" /\ E.none, <<E.exc, E.none, E.e>>)
       ELSE IF RLe(pe, Grey) THEN TRUE
       ELSE /\ Chk("C10.raises", E.exc = "" /\ ~E.none, <<E.exc, E.q, E.e>>)
            /\ (E.exc = "" /\ ~E.none => Chk("C10.probability", Eq(E.p, Infer(V, Ls, q, e)), <<E.p, Infer(V, Ls, q, e), E.q, E.e>>)
                             /\ Chk("C10.in-range", RLe(RNeg(Tol), E.p) /\ RLe(E.p, RAdd(1, Tol)), E.p))
(* answers about the posterior: clause if the evidence is impossible; else  *)
(* P must hold                                                              *)
AboutPosterior(e, prop, P(_)) ==
    LET lk == Liks(V, Ls, e) tot == RSum(lk)
        grey == ~Sharp(Ls, e) \/ Noise(V, Ls, e) IN
    IF grey THEN TRUE
    ELSE IF REq(tot, 0) /\ \E k \in 1..Len(Ls) : ~Far0(V, Ls[k], e) THEN Chk(prop \o ".raises", E.exc \in {"", "Unsatisfiability"}, <<E.exc, E.e>>)
    ELSE IF REq(tot, 0) THEN Chk(prop \o ".unsatisfiable", IF E.fail THEN E.exc = "Unsatisfiability" ELSE E.exc = "" /\ E.none, <<E.exc, E.none, E.e>>)
    ELSE /\ Chk(prop \o ".raises", E.exc = "" /\ ~E.none, <<E.exc, E.e>>)
         /\ (E.exc = "" /\ ~E.none => P(Given(V, Ls, e)))
PosteriorE ==
    /\ IsEvent("posterior") /\ Ask
    /\ LET P(g) == /\ Chk("C11.variables", [i \in 1..Len(E.res) |-> E.res[i].v] = E.vars, <<E.vars, E.res>>)
                   /\ Chk("C11.posterior", \A i \in 1..Len(E.res) : SameD(E.res[i].d, Marginal(g, E.res[i].v)),
                          <<E.e, E.res, [i \in 1..Len(E.res) |-> Marginal(g, E.res[i].v)]>>)
       IN AboutPosterior(Cons(E.e), "C11", P)
Expect ==
    /\ IsEvent("expectation") /\ Ask
    /\ LET P(g) == /\ Chk("C19.tree-expected-variables", SetOf(E.vars) = {E.res[i].v : i \in 1..Len(E.res)}, <<E.vars, E.res>>)
                   /\ Chk("C19.tree-expectation", \A i \in 1..Len(E.res) : LET v == E.res[i].v d == Marginal(g, v) IN
                          IF V[v].kind = "sym" THEN LET m == SetOf(E.res[i].m) IN m # {} /\ m \subseteq Modes(d, "1/100000000") /\ Modes(d, "-1/100000000") \subseteq m
                          ELSE RClose(E.res[i].x, MeanOf(V[v], d), "1/1000000"),
                          <<E.e, E.res, [i \in 1..Len(E.res) |-> MeanOf(V[E.res[i].v], Marginal(g, E.res[i].v))]>>)
       IN AboutPosterior(Cons(E.e), "C19", P)
MomentE ==
    /\ IsEvent("moment") /\ Ask
    /\ LET P(g) == Chk("C19.tree-moment", \A i \in 1..Len(E.res) : LET v == E.res[i].v m == MomentOf(V[v], Marginal(g, v), E.order, E.c[v]) IN
                          RClose(E.res[i].x, m, "1/100000"),
                          <<E.e, E.order, E.c, E.res, [i \in 1..Len(E.res) |-> MomentOf(V[E.res[i].v], Marginal(g, E.res[i].v), E.order, E.c[E.res[i].v])]>>)
       IN AboutPosterior(Cons(E.e), "C19", P)

(* The density of the most probable states of one variable in a leaf of the *)
(* conditional tree.                                                        *)
IsImp(d) == \E k \in 1..((Len(d) - 1) \div 2) : Atom(d, 2 * k)
Best1(v, d) == IF V[v].kind # "num" THEN MaxOf({d[i] : i \in 1..Len(d)})
               ELSE IF IsImp(d) THEN E.mind[v]
               ELSE RDiv(MaxOf({Dens(d, V[v].grid, k) : k \in 1..(V[v].n - 1)}), V[v].scale)
Mixed(v, d) == V[v].kind = "num" /\ ~IsImp(d) /\ \E k \in 1..V[v].n : RLt("1/1000000000", d[2 * k])
States1(v, d, tol) == IF V[v].kind # "num" THEN Modes(d, tol)
               ELSE IF IsImp(d) THEN {2 * k : k \in {k \in 1..V[v].n : Atom(d, 2 * k)}}
               ELSE LET dens == [k \in 1..(V[v].n - 1) |-> Dens(d, V[v].grid, k)] m == MaxOf({dens[k] : k \in 1..(V[v].n - 1)}) IN
                    {2 * k + 1 : k \in {k \in 1..(V[v].n - 1) : RLe(RSub(m, tol), dens[k])}}
(* proper states: gaps, or labels, or the position of an impulse            *)
Proper_(v, d, S) == IF V[v].kind # "num" \/ IsImp(d) THEN S ELSE {i \in S : i % 2 = 1}
(* the gaps of a set of numbers, all of it if it has none                   *)
Inner(v, S) == IF V[v].kind = "num" /\ \E i \in S : i % 2 = 1 THEN {i \in S : i % 2 = 1} ELSE S
StateOk(v, d, st) == LET S == SetOf(st) IN
    /\ -1 \notin S
    /\ States1(v, d, "-1/1000000") \subseteq Proper_(v, d, S) /\ Proper_(v, d, S) \subseteq States1(v, d, "1/1000000")
MpeE ==
    /\ IsEvent("mpe") /\ Ask
    /\ LET P(g) ==
             IF E.spiky \/ \E j \in 1..Len(g) : \E v \in 1..NV : Mixed(v, g[j].d[v]) THEN TRUE
             ELSE
             LET lik == [j \in 1..Len(g) |-> RMul(g[j].w, RProd([v \in 1..NV |-> Best1(v, g[j].d[v])]))]
                 best == MaxOf({lik[j] : j \in 1..Len(g)})
                 near == {j \in 1..Len(g) : RClose(lik[j], best, "1/100000")}
                 top(j) == \A m \in 1..Len(E.liks) : RLe(E.liks[m].x, (CHOOSE x \in SetOf(E.liks) : x.i = Ls[g[j].k].i).x)
                 fits(j, st) == \A v \in 1..NV : StateOk(v, g[j].d[v], st[v])
             IN /\ Chk("C14.likelihood", RClose(E.lik, best, "1/100000"), <<E.e, E.lik, lik>>)
                /\ Chk("C14.leaf-likelihood", /\ {x.i : x \in SetOf(E.liks)} = {Ls[g[j].k].i : j \in 1..Len(g)}
                                              /\ \A j \in 1..Len(g) : \A x \in SetOf(E.liks) : x.i = Ls[g[j].k].i => RClose(x.x, lik[j], "1/100000"), <<E.liks, lik>>)
                /\ Chk("C14.states-maximal", \A m \in 1..Len(E.res) : \E j \in near : fits(j, E.res[m]), <<E.e, E.res, g, lik>>)
                /\ Chk("C14.all-leaves", {x.i : x \in SetOf(E.liks)} = {Ls[g[j].k].i : j \in 1..Len(g)} =>
                       /\ \A j \in near : top(j) => \E m \in 1..Len(E.res) : fits(j, E.res[m])
                       /\ Len(E.res) = Cardinality({j \in 1..Len(g) : top(j)}), <<E.res, E.liks>>)
                /\ Chk("C14.satisfies-evidence", LET e == Cons(E.e) IN \A m \in 1..Len(E.res) : \A v \in 1..NV :
                       e[v].t = "none" \/ Inner(v, SetOf(E.res[m][v])) \subseteq e[v].s, <<E.e, E.res>>)
       IN AboutPosterior(Cons(E.e), "C14", P)
(* Ranked explanations of the tree: E.lev[k] = for a leaf of the            *)
(* conditional tree and every variable the ranked states of its             *)
(* distribution (module MassTrace judges those), E.all what the tree lists. *)
RECURSIVE Combos(_, _)
Combos(lv, v) == IF v > Len(lv) THEN {<<>>} ELSE {<<i>> \o s : i \in 1..Len(lv[v]), s \in Combos(lv, v + 1)}
KmpeE ==
    /\ IsEvent("kmpe") /\ Ask
    /\ LET P(g) ==
             IF E.judge = FALSE THEN TRUE
             ELSE
             LET all == UNION {{[st |-> [v \in 1..NV |-> Inner(v, SetOf(E.lev[k].d[v][c[v]].st))],
                                 x |-> RMul(E.lev[k].w, RProd([v \in 1..NV |-> E.lev[k].d[v][c[v]].x])), k |-> k] : c \in Combos(E.lev[k].d, 1)} : k \in 1..Len(E.lev)}
                 got == [m \in 1..Len(E.all) |-> [st |-> [v \in 1..NV |-> Inner(v, SetOf(E.all[m].st[v]))], x |-> E.all[m].x]]
                 want == Cardinality(all)
             IN /\ Chk("C15.tree-order", \A m \in 1..(Len(got) - 1) : RLe(got[m + 1].x, RMul(got[m].x, "100001/100000")), [m \in 1..Len(got) |-> got[m].x])
                /\ Chk("C15.tree-complete", Len(got) = (IF E.kk = 0 \/ want < E.kk THEN want ELSE E.kk), <<Len(got), want, E.kk>>)
                /\ Chk("C15.tree-likelihood", \A m \in 1..Len(got) : \E a \in all : a.st = got[m].st /\ RClose(a.x, got[m].x, "1/100000"), <<got, all>>)
                /\ Chk("C15.tree-no-repetition", \A s \in {got[m].st : m \in 1..Len(got)} :
                       Cardinality({m \in 1..Len(got) : got[m].st = s}) <= Cardinality({a \in all : a.st = s}), got)
                /\ Chk("C15.tree-best-first", \A a \in all : (\E m \in 1..Len(got) : got[m].st = a.st) \/ \A m \in 1..Len(got) : RLe(a.x, RMul(got[m].x, "100001/100000")), <<got, all>>)
       IN AboutPosterior(Cons(E.e), "C15", P)

(* densities and likelihoods; E.x: one index per variable, 0 for none       *)
PtCon(x) == [v \in 1..NV |-> IF x[v] = 0 THEN None ELSE [t |-> IF V[v].kind = "num" THEN "pt" ELSE "set", s |-> {x[v]}]]
AnyAtom(ls, e) == \E k \in 1..Len(ls) : \E v \in 1..NV : e[v].t = "pt" /\ Atom(ls[k].d[v], The(e[v].s))
Pdf ==
    /\ IsEvent("pdf") /\ Ask
    /\ LET e == PtCon(E.x) IN
       IF ~Sharp(Ls, e) \/ AnyAtom(Ls, e) THEN TRUE
       ELSE /\ Chk("C23.pdf-raises", E.exc = "", <<E.exc, E.x>>)
            /\ (E.exc = "" => Chk("C23.density", RClose(E.p, RSum(Liks(V, Ls, e)), "1/1000000"), <<E.x, E.p, RSum(Liks(V, Ls, e))>>))
Likely1(v, d, i) == IF V[v].kind # "num" THEN d[i] ELSE IF Atom(d, i) THEN RDiv(E.dirac, E.mind[v]) ELSE RDiv(RightDens(V[v], d, i), V[v].scale)
Likely(x) == RSum([k \in 1..Len(Ls) |-> RMul(Ls[k].w, RProd([v \in 1..NV |-> Likely1(v, Ls[k].d[v], x[v])]))])
Likelihood ==
    /\ IsEvent("likelihood") /\ Ask
    /\ Chk("C23.likelihood-raises", E.exc = "", E.exc)
    /\ (E.exc = "" =>
        /\ Chk("C23.rows", Len(E.p) = Len(E.rows), <<Len(E.p), Len(E.rows)>>)
        /\ Chk("C23.likelihood", \A r \in 1..Len(E.rows) : ~Sharp(Ls, PtCon(E.rows[r])) \/ RClose(E.p[r], Likely(E.rows[r]), "1/100000"),
               <<E.rows, E.p, [r \in 1..Len(E.rows) |-> Likely(E.rows[r])]>>))
(* sampling; E.smp: one index per variable (numeric: cells)                 *)
Support(v, d, i) == IF V[v].kind # "num" THEN i > 0 /\ RLt(0, d[i])
    ELSE i > 0 /\ (RLt("1/100000000000", d[i]) \/ (i % 2 = 0 /\ (RLt("1/100000000000", d[i - 1]) \/ RLt("1/100000000000", d[i + 1]))))
Sample ==
    /\ IsEvent("sample") /\ Ask
    /\ Chk("C17.sample-raises", E.exc = "", E.exc)
    /\ (E.exc = "" =>
        /\ Chk("C17.tree-support", \A r \in 1..Len(E.smp) : \E k \in 1..Len(Ls) : RLt(0, Ls[k].w) /\ \A v \in 1..NV : Support(v, Ls[k].d[v], E.smp[r][v]), E.smp)
        /\ (E.freq # <<>> => Chk("C17.tree-frequency", \A v \in 1..NV : LET d == Marginal(Ls, v) IN \A i \in 1..Width(V[v]) :
              LET f == RDiv(E.freq[v][i], E.num) IN
              RLe(SqR(RSub(f, d[i])), RAdd(RDiv(RMul(36, RMul(RAbs(d[i]), RSub(1, d[i]))), E.num), RDiv(9, E.num * E.num))), <<E.freq, [v \in 1..NV |-> Marginal(Ls, v)]>>)))
(* structural equality between trees                                        *)
Pair ==
    /\ IsEvent("pair") /\ Ask
    /\ Chk("C16.tree-equal", E.exc = "" /\ (E.eq => SameTree(T_(E.a), T_(E.b))) /\ (E.a = E.b => E.eq), <<E.exc, E.eq>>)
(* trees that are not known any more are followed without judging them     *)
Lost == IF E.op = "learn" THEN FALSE
        ELSE IF E.op = "mulprior" THEN ~Known(E.t)
        ELSE IF E.op = "pair" THEN ~Known(E.a) \/ ~Known(E.b) ELSE ~Known(E.a)
Skip == /\ l < Len(Ev) /\ l' = l + 1 /\ UNCHANGED h
        /\ reg' = [r \in 1..H.k |-> [reg[r] EXCEPT !.fp = E.fps[r], !.t = IF E.op \in {"dup", "cond", "prune"} /\ r = E.t THEN <<>> ELSE @]]
Judge == \/ Learn \/ Dup \/ Cond \/ MulPrior \/ Prune \/ InferE \/ PosteriorE \/ Expect \/ MomentE \/ MpeE \/ KmpeE \/ Pdf \/ Likelihood \/ Sample \/ Pair
Next == l < Len(Ev) /\ IF Lost THEN Skip ELSE Judge
Spec == Init /\ [][Next]_vars
=============================================================================
