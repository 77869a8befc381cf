----------------------------- MODULE SeqTrace ------------------------------
(* Sequence models: fitted to sequences of rows, then asked for the leaf    *)
(* distributions of every step of a sequence given evidence about each.     *)
(*   reg  [lv: the leaves in the order of the transition matrix, each       *)
(*        [i, w, path, d]; F: the transition weights], <<>> if unknown      *)
EXTENDS TraceBase, Tree, Learn, Chain
VARIABLE reg
vars == <<h, l, reg>>
V == H.V
NV == Len(V)
Init == h \in 1..Len(Hist) /\ l = 0 /\ reg = <<>>
Eq(a, b) == RClose(a, b, "1/10000000")
Rough(a, b) == RClose(a, b, "1/2000")      \* message passing stops when messages change by less than 1e-5
SameD(d, e) == Len(d) = Len(e) /\ \A i \in 1..Len(d) : Eq(d[i], e[i])
Con(v, j) == IF j.t = "none" THEN None
             ELSE IF j.t = "lab" THEN [t |-> "set", s |-> SetOf(j.s)]
             ELSE LET s == {c + 1 : c \in Denote(V[v].n, j.ivs)} IN
                  [t |-> IF Cardinality(s) = 1 /\ \A c \in s : c % 2 = 0 THEN "pt" ELSE "set", s |-> s]
Cons(js) == [i \in 1..NV |-> Con(i, js[i])]
Sharp(ls, e) == \A i \in 1..NV : ~(e[i].t = "pt" /\ V[i].kind = "num")
Path(lf) == [v \in 1..NV |-> SetOf(lf.path[v])]
In(row, lf) == \A v \in 1..NV : row[v] \in SetOf(lf.path[v])
(* the first rows of all windows                                            *)
RECURSIVE Firsts(_, _)
Firsts(seqs, n) == IF seqs = <<>> THEN <<>> ELSE SubSeq(seqs[1], 1, Len(seqs[1]) + 1 - n) \o Firsts(Tail(seqs), n)
StateOf(lv, row) == CHOOSE k \in 1..Len(lv) : In(row, lv[k])
Holds == reg' = [lv |-> E.leaves, F |-> E.trans]
Fit ==
    /\ IsEvent("seqfit")
    /\ IF E.exc # "" THEN Chk("C22.fit-raises", FALSE, E.exc) /\ reg' = <<>>
       ELSE LET lv == E.leaves rows == TLCEval(Firsts(E.seqs, E.steps))
                all == UNION {SetOf(E.seqs[k]) : k \in 1..Len(E.seqs)}
                reach == TLCEval([k \in 1..Len(lv) |-> {r \in 1..Len(rows) : In(rows[r], lv[k])}])
                part == \A row \in all : Cardinality({k \in 1..Len(lv) : In(row, lv[k])}) = 1
            IN
            /\ Chk("C22.partition", part, [k \in 1..Len(lv) |-> Path(lv[k])])
            /\ Chk("C22.leaf-priors", \A k \in 1..Len(lv) : Eq(lv[k].w, RDiv(Cardinality(reach[k]), Len(rows))), <<[k \in 1..Len(lv) |-> lv[k].w], reach>>)
            /\ \A k \in 1..Len(lv) : reach[k] # {} => \A v \in 1..NV :
                 Chk("C22.leaf-distributions", LeafOk(V, rows, reach[k], v, Path(lv[k])[v], TRUE, Len(rows), lv[k].d[v]), <<k, v, lv[k].d[v]>>)
            /\ (part => LET F == Frequencies(Len(lv), TLCEval([s \in 1..Len(E.seqs) |-> TLCEval([r \in 1..Len(E.seqs[s]) |-> StateOf(lv, E.seqs[s][r])])])) IN
                 Chk("C22.transitions", Len(E.trans) = Len(lv) /\ \A i, j \in 1..Len(lv) : Len(E.trans[i]) = Len(lv) /\ Eq(E.trans[i][j], F[i][j]), <<E.trans, F>>))
            /\ IF Len(E.trans) = Len(lv) THEN Holds ELSE reg' = <<>>
Restore ==
    /\ IsEvent("seqjson")
    /\ IF E.exc # "" THEN Chk("C22.restore-raises", FALSE, E.exc) /\ reg' = <<>>
       ELSE LET lv == E.leaves old == IF reg = <<>> THEN <<>> ELSE reg.lv IN
            /\ (reg # <<>> => Chk("C22.restored", /\ Len(lv) = Len(old) /\ Len(E.trans) = Len(lv)
                    /\ \A k \in 1..Len(old) : \E m \in 1..Len(lv) : lv[m].i = old[k].i /\ Eq(lv[m].w, old[k].w) /\ Path(lv[m]) = Path(old[k])
                                                  /\ \A v \in 1..NV : SameD(lv[m].d[v], old[k].d[v])
                    /\ \A i, j \in 1..Len(lv) : \A p, r \in 1..Len(lv) : (old[p].i = lv[i].i /\ old[r].i = lv[j].i) => Eq(E.trans[i][j], reg.F[p][r]), <<E.trans, reg>>))
            /\ IF Len(E.trans) = Len(lv) THEN Holds ELSE reg' = <<>>
Ask ==
    /\ IsEvent("seqask")
    /\ Chk("C22.model-unchanged", E.args, E.es)
    /\ Chk("C22.repeatable", E.again, E.es)
    /\ UNCHANGED reg
    /\ IF reg = <<>> THEN TRUE ELSE      \* bound variables are values, evaluated once
       \A lv \in {reg.lv} : \A es \in {[t \in 1..Len(E.es) |-> TLCEval(Cons(E.es[t]))]} :
       \A lk \in {[t \in 1..Len(es) |-> TLCEval(Liks(V, lv, es[t]))]} :
       \A P \in {[t \in 1..Len(es) |-> LET z == RSum(lk[t]) IN TLCEval([k \in 1..Len(lv) |-> RShort(RDiv(lk[t][k], z))])]} :
       LET grey == \E t \in 1..Len(es) : ~Sharp(lv, es[t]) \/ Noise(V, lv, es[t])
           dead == \E t \in 1..Len(es) : REq(RSum(lk[t]), 0)
           far == \A t \in 1..Len(es) : REq(RSum(lk[t]), 0) => \A k \in 1..Len(lv) : Far0(V, lv[k], es[t])
       IN IF grey THEN TRUE
          ELSE IF dead THEN far => Chk("C22.unsatisfiable", E.exc = "Unsatisfiability", E.exc)
          ELSE IF REq(Weight(reg.F, P), 0) THEN Chk("C22.unsatisfiable", E.exc = "Unsatisfiability", <<E.exc, "no path">>)
          ELSE IF E.exc # "" THEN Chk("C22.marginals-raise", FALSE, E.exc)
          ELSE LET of(t, i) == {m \in 1..Len(E.res[t]) : E.res[t][m].i = i} IN
               /\ Chk("C22.length", Len(E.res) = Len(es), Len(E.res))
               /\ (Len(E.res) = Len(es) => \A M \in {Marginals(reg.F, P)} : \A t \in 1..Len(es) :
                   /\ Chk("C22.marginals", /\ \A m \in 1..Len(E.res[t]) : \E k \in 1..Len(lv) : lv[k].i = E.res[t][m].i
                                           /\ \A k \in 1..Len(lv) : LET o == of(t, lv[k].i) IN
                                              /\ Cardinality(o) <= 1
                                              /\ IF o = {} THEN Rough(M[t][k], 0) ELSE \A m \in o : Rough(E.res[t][m].w, M[t][k]),
                          <<t, M[t], [m \in 1..Len(E.res[t]) |-> <<E.res[t][m].i, E.res[t][m].w>>]>>)
                   /\ Chk("C22.step-distributions", \A k \in 1..Len(lv) : RLt("1/1000", M[t][k]) => \A m \in of(t, lv[k].i) :
                          \A v \in 1..NV : SameD(E.res[t][m].d[v], Restrict1(V[v], lv[k].d[v], es[t][v])), <<t, E.res[t]>>))
Next == l < Len(Ev) /\ (Fit \/ Restore \/ Ask)
Spec == Init /\ [][Next]_vars
=============================================================================
