----------------------------- MODULE FuncTrace -----------------------------
(* Histories of building, combining and asking piecewise and elementary     *)
(* functions, as recorded from the implementation.  A function is observed  *)
(* through its values at the grid points and at points between them.        *)
(*   reg[r]  [k |-> "no"] nothing, [k |-> "?"] not representable any more,  *)
(*           [k |-> "plf" or "el", c |-> its cells]                         *)
EXTENDS TraceBase, Func
VARIABLES reg, fp
vars == <<h, l, reg, fp>>
G == H.grid
N == Len(G)
Cells == 1..(2 * N + 1)
None_ == [k |-> "no", c |-> <<>>]
Init == h \in 1..Len(Hist) /\ l = 0 /\ reg = [r \in 1..H.k |-> None_] /\ fp = [r \in 1..H.k |-> ""]
Known(r) == reg[r].k \in {"plf", "el"}
C(r) == reg[r].c
El(r) == reg[r].k = "el"

Near(a, b) == (RIsNaN(a) /\ RIsNaN(b)) \/ RClose(a, b, "1/1000000000")
(* o: values observed in every cell; f: cells                               *)
Shows(o, f) == \A i \in Cells : \A k \in 1..Len(o[i]) : Near(o[i][k], At(f[i], Samples(G, i)[k]))
Bad(o, f) == [i \in {i \in Cells : \E k \in 1..Len(o[i]) : ~Near(o[i][k], At(f[i], Samples(G, i)[k]))} |-> <<o[i], f[i]>>]

(* All other registers are as they were.                                    *)
Frame(ts) == /\ Chk("C03.operands-unchanged", \A r \in 1..H.k : r \notin ts => E.fps[r] = fp[r], <<ts, E.op>>)
             /\ fp' = E.fps
Keep(t, x) == reg' = [reg EXCEPT ![t] = x]
Unknown == [k |-> "?", c |-> <<>>]
(* An operation that puts a function into E.t: ok - it is supported;        *)
(* fits - the result is made of cells                                       *)
Put(ok, fits, kind, f, name) ==
    /\ Frame({E.t})
    /\ IF E.exc # "" THEN Chk("C03.raises", ~ok, <<E.op, name, E.exc>>) /\ UNCHANGED reg
       ELSE /\ (ok /\ fits => Chk("C03." \o name, Shows(E.obs, f), Bad(E.obs, f)))
            /\ Keep(E.t, IF ok /\ fits THEN [k |-> kind, c |-> f] ELSE Unknown)
Lost == Frame({E.t}) /\ (IF E.exc = "" THEN Keep(E.t, Unknown) ELSE UNCHANGED reg)
Ask == Frame({}) /\ UNCHANGED reg

New == /\ IsEvent("new")
       /\ IF E.kind = "el" THEN Put(TRUE, TRUE, "el", Everywhere(IF E.f = <<>> THEN Und ELSE Poly(E.f), N), "elementary")
          ELSE IF E.kind = "points" THEN Put(TRUE, TRUE, "plf", ThroughPoints(G, E.pts), "points")
          ELSE Put(TRUE, TRUE, "plf", Literal(N, E.pieces), "literal")
Bin == /\ IsEvent("bin")
       /\ IF ~Known(E.a) \/ ~Known(E.b) THEN Lost
          ELSE \A f \in {C(E.a)} : \A g \in {C(E.b)} :
               LET el == El(E.a) /\ El(E.b)
                   fit == el \/ ~El(E.b) \/ (Is(g[1]) /\ Deg(g[1]) <= 1)    \* what a piecewise function can be combined with
                   cut(x) == IF El(E.b) /\ ~El(E.a) THEN Within(f, x) ELSE x
                   kind == IF el THEN "el" ELSE "plf"
               IN IF El(E.a) /\ ~El(E.b) THEN Lost           \* elementary (op) piecewise: not defined by the interface
                  ELSE CASE E.o = "+" -> Put(fit, TRUE, kind, cut(Plus(f, g)), "sum")
                         [] E.o = "-" -> Put(~el /\ fit, TRUE, kind, cut(Minus(f, g)), "difference")
                         [] E.o = "*" -> Put(TimesOk(f, g) /\ fit, TRUE, kind, cut(Times(f, g)), "product")
                         [] OTHER -> Lost
(* Where two functions meet at a grid point, values do not tell whose piece  *)
(* the minimum or maximum has there.                                        *)
Tie(f, g) == \E i \in CommonDom(f, g) : i % 2 = 0 /\ f[i] # g[i] /\ REq(At(f[i], G[i \div 2]), At(g[i], G[i \div 2]))
MinMax == /\ IsEvent("minmax")
          /\ IF ~Known(E.a) \/ ~Known(E.b) \/ El(E.a) \/ El(E.b) THEN Lost
             ELSE \A f \in {C(E.a)} : \A g \in {C(E.b)} :
                  LET ok == MinMaxOk(f, g) /\ CommonDom(f, g) # {}
                      low == E.o = "min"
                      want(i, s) == IF i \notin CommonDom(f, g) THEN "nan" ELSE IF low THEN RMin(At(f[i], s), At(g[i], s)) ELSE RMax(At(f[i], s), At(g[i], s))
                  IN /\ Frame({E.t})
                     /\ IF E.exc # "" THEN Chk("C03.raises", ~ok, <<E.op, E.exc>>) /\ UNCHANGED reg
                        ELSE /\ (ok => Chk("C03.minmax", \A i \in Cells : \A k \in 1..Len(E.obs[i]) : Near(E.obs[i][k], want(i, Samples(G, i)[k])), <<E.o, E.obs, f, g>>))
                             /\ Keep(E.t, IF ok /\ Smooth(G, f, g) /\ ~Tie(f, g) THEN [k |-> "plf", c |-> IF low THEN Lower(G, f, g) ELSE Upper(G, f, g)] ELSE Unknown)
WithNumber == /\ IsEvent("num")
       /\ IF ~Known(E.a) THEN Lost
          ELSE LET f == C(E.a) v == Num(E.v) c == Within(f, Everywhere(Const(v), N)) k == reg[E.a].k IN
               CASE E.o \in {"+", "r+"} -> Put(TRUE, TRUE, k, Plus(f, c), "sum-with-number")
                 [] E.o \in {"*", "r*"} -> Put(TRUE, TRUE, k, Scale(f, v), "scaled")
                 [] E.o = "-" -> Put(k = "plf" \/ Deg(f[1]) = 1, TRUE, k, Minus(f, c), "minus-number")
                 [] E.o = "r-" -> Put(FALSE, TRUE, k, Minus(c, f), "number-minus")
                 [] E.o = "/" -> Put(k = "plf", TRUE, k, Scale(f, RDiv(1, v)), "divided")
                 [] E.o = "stretch" -> Put(TRUE, TRUE, k, Scale(f, v), "stretched")
Unary == /\ IsEvent("un")
       /\ IF ~Known(E.a) THEN Lost
          ELSE LET f == C(E.a) k == reg[E.a].k IN
               CASE E.o = "copy" -> Put(TRUE, TRUE, k, f, "copy") /\ (E.exc = "" => Chk("C03.copy-equal", E.eq, E.o))
                 [] E.o = "simplify" -> Put(TRUE, TRUE, k, f, "simplified")
                 [] E.o = "json" -> Put(TRUE, TRUE, k, f, "restored") /\ (E.exc = "" => Chk("C03.restored-equal", E.eq, E.o))
                 [] E.o = "diff" -> Put(Total(f), TRUE, k, Diff(f), "derivative")
                 [] E.o = "dropundef" -> Put(k = "plf", TRUE, k, DropUnd(f), "drop-undefined")
                 [] E.o = "rectify" -> Put(k = "plf" /\ Flat(f) /\ Bounded(G, f), TRUE, k, Rectified(G, f), "rectified")
                 [] E.o = "abs" -> LET g == Scale(f, "-1") IN
                       /\ Frame({E.t})
                       /\ IF E.exc # "" THEN Chk("C03.raises", ~(k = "plf" /\ MinMaxOk(f, g) /\ Dom(f) # {}), <<E.op, E.exc>>) /\ UNCHANGED reg
                          ELSE /\ (Flat(f) /\ Total(f) => Chk("C03.absolute", \A i \in Cells : \A m \in 1..Len(E.obs[i]) : Near(E.obs[i][m], RAbs(At(f[i], Samples(G, i)[m]))), E.obs))
                               /\ Keep(E.t, IF MinMaxOk(f, g) /\ Smooth(G, f, g) /\ ~Tie(f, g) THEN [k |-> k, c |-> Upper(G, f, g)] ELSE Unknown)
(* Mirroring may assign a point where pieces meet to the other one of them, *)
(* and shifting pieces that end one representable number beyond a point may *)
(* move this end: such a point may get either piece, or none.  If values do *)
(* not tell which, the result is not followed any further.                  *)
Nearby(m, i) == LET cand == IF i % 2 = 1 THEN {m[i]} ELSE {m[i - 1], m[i], m[i + 1]} \cup (IF E.op = "shift" THEN {Out} ELSE {}) IN
                {p \in cand : \A k \in 1..Len(E.obs[i]) : Near(E.obs[i][k], At(p, Samples(G, i)[k]))}
Observed(m) == [i \in Cells |-> CHOOSE p \in Nearby(m, i) : TRUE]
ShiftIt == /\ IsEvent("shift")
       /\ IF ~Known(E.a) THEN Lost
          ELSE LET f == C(E.a) ok == Flat(f) /\ ShiftOk(f, E.n) m == Shift(f, E.n, H.step) IN
               /\ Frame({E.t})
               /\ IF E.exc # "" THEN Chk("C03.raises", ~Flat(f), <<E.op, E.exc>>) /\ UNCHANGED reg
                  ELSE /\ (ok => Chk("C03.shifted", \A i \in Cells : Nearby(m, i) # {}, [i \in {i \in Cells : Nearby(m, i) = {}} |-> <<E.obs[i], m[i]>>]))
                       /\ Keep(E.t, IF ok /\ Total(m) /\ \A i \in Cells : Cardinality(Nearby(m, i)) = 1 THEN [k |-> reg[E.a].k, c |-> Observed(m)] ELSE Unknown)
MirrorIt == /\ IsEvent("mirror")
       /\ IF ~Known(E.a) THEN Lost
          ELSE LET f == C(E.a) ok == Flat(f) /\ Total(f) m == Mirrored(f)
               IN /\ Frame({E.t})
                  /\ IF E.exc # "" THEN Chk("C03.raises", ~ok, <<E.op, E.exc>>) /\ UNCHANGED reg
                     ELSE /\ (ok => Chk("C03.mirrored", \A i \in Cells : Nearby(m, i) # {}, [i \in {i \in Cells : Nearby(m, i) = {}} |-> <<E.obs[i], m[i]>>]))
                          /\ Keep(E.t, IF ok /\ \A i \in Cells : Cardinality(Nearby(m, i)) = 1 THEN [k |-> reg[E.a].k, c |-> Observed(m)] ELSE Unknown)
OverIt == /\ IsEvent("over")
       /\ IF ~Known(E.a) THEN Lost
          ELSE Put(~El(E.a) /\ Pos(N, E.iv) # {}, TRUE, "plf", Over(C(E.a), Pos(N, E.iv), IF E.f = <<>> THEN Und ELSE Poly(E.f)), "overwritten")
CropIt == /\ IsEvent("crop")
       /\ IF ~Known(E.a) THEN Lost ELSE Put(~El(E.a) /\ Pos(N, E.iv) # {}, TRUE, "plf", Crop(C(E.a), Pos(N, E.iv)), "cropped")
SplitIt == /\ IsEvent("split")
       /\ Frame({E.t, E.t2})
       /\ IF ~Known(E.a) THEN reg' = IF E.exc = "" THEN [reg EXCEPT ![E.t] = Unknown, ![E.t2] = Unknown] ELSE reg
          ELSE LET f == C(E.a) p == 2 * E.x in == ~El(E.a) /\ f[p] # Out IN
               IF E.exc # "" THEN Chk("C03.raises", ~in, <<E.op, E.exc>>) /\ UNCHANGED reg
               ELSE LET a == Crop(f, 1..(p - 1)) b == Crop(f, p..(2 * N + 1)) IN
                    /\ (in => Chk("C03.split", Shows(E.obs, a) /\ Shows(E.obs2, b), <<E.x, Bad(E.obs, a), Bad(E.obs2, b)>>))
                    /\ reg' = [reg EXCEPT ![E.t] = IF in THEN [k |-> "plf", c |-> a] ELSE Unknown, ![E.t2] = IF in THEN [k |-> "plf", c |-> b] ELSE Unknown]

(* Questions.                                                               *)
Same_(a, b) == (RIsNaN(a) /\ RIsNaN(b)) \/ RClose(a, b, "1/1000000000")
Integrate == /\ IsEvent("integrate") /\ Ask
       /\ IF ~Known(E.a) THEN TRUE
          ELSE LET f == C(E.a) S == Pos(N, E.iv) in == S \cap Dom(f)
                   ok == (\A i \in in : f[i] # Und /\ Deg(f[i]) <= 1) /\ S # {} /\ (El(E.a) => Is(f[1]) /\ \E i \in S : i % 2 = 1) IN
               IF ~ok THEN TRUE
               ELSE IF E.exc # "" THEN Chk("C03.integral-raises", FALSE, <<E.iv, E.exc>>)
               ELSE Chk("C03.integral", Same_(E.res, Area(G, f, S)), <<E.iv, E.res, Area(G, f, S)>>)
Jaccard == /\ IsEvent("jaccard") /\ Ask
       /\ IF ~Known(E.a) \/ ~Known(E.b) \/ El(E.a) \/ El(E.b) THEN TRUE
          ELSE \A f \in {C(E.a)} : \A g \in {C(E.b)} :
               LET S == Pos(N, E.iv) \cap CommonDom(f, g) top == AreaMin(G, f, g, S, TRUE) low == AreaMin(G, f, g, S, FALSE) IN
               IF ~MinMaxOk(f, g) \/ S = {} \/ ~(Pos(N, E.iv) \subseteq 2..(2 * N)) \/ RLe(low, "1/1000") THEN TRUE
               ELSE IF E.exc # "" THEN Chk("C03.similarity-raises", FALSE, E.exc)
               ELSE Chk("C03.similarity", Same_(E.res, RDiv(top, low)), <<E.res, top, low>>)
Maximize == /\ IsEvent("maximize") /\ Ask
       /\ IF ~Known(E.a) \/ El(E.a) THEN TRUE
          ELSE \A f \in {C(E.a)} :
               LET top == Sup(G, f) IN
               IF ~Flat(f) \/ ~RIsFin(top) THEN TRUE
               ELSE IF E.exc # "" THEN Chk("C03.maximum-raises", FALSE, E.exc)
               ELSE /\ Chk("C03.maximum", Same_(E.res, top), <<E.res, top>>)
                    /\ Chk("C03.argmax", \A i \in Cells : \A k \in 1..Len(E.in[i]) : LET v == At(f[i], Samples(G, i)[k]) IN
                             /\ E.in[i][k] => Is(f[i]) /\ Same_(v, top)
                             /\ (Is(f[i]) /\ REq(v, top) /\ E.exact) => E.in[i][k], <<top, E.in>>)
Domain_ == /\ IsEvent("domain") /\ Ask
       /\ IF ~Known(E.a) \/ El(E.a) THEN TRUE
          ELSE IF E.exc # "" THEN Chk("C03.domain-raises", FALSE, E.exc)
          ELSE Chk("C03.domain", \A i \in Cells : \A k \in 1..Len(E.in[i]) : E.in[i][k] = (i \in Dom(C(E.a))), <<Dom(C(E.a)), E.in>>)
Equal == /\ IsEvent("eq") /\ Ask
       /\ IF ~Known(E.a) \/ ~Known(E.b) \/ El(E.a) # El(E.b) THEN TRUE
          ELSE IF E.exc # "" THEN Chk("C03.equality-raises", FALSE, E.exc)
          ELSE \A f \in {C(E.a)} : \A g \in {C(E.b)} :
               /\ Chk("C03.equality", E.res => \A i \in Cells : f[i] = g[i] \/ (i % 2 = 0 /\ \A k \in 1..1 : Same_(At(f[i], G[i \div 2]), At(g[i], G[i \div 2]))), <<E.a, E.b>>)
               /\ (El(E.a) => Chk("C03.equality", (f[1] = g[1]) => E.res, <<E.a, E.b, f[1]>>))
               /\ Chk("C03.hash", E.res => E.hash, <<E.a, E.b>>)
Convolve == /\ IsEvent("convolve") /\ Ask
       /\ IF ~Known(E.a) \/ ~Known(E.b) \/ El(E.a) \/ El(E.b) THEN TRUE
          ELSE \A f \in {C(E.a)} : \A g \in {C(E.b)} :
               LET lev(x) == \A i \in Cells : Is(x[i]) /\ Deg(x[i]) = 0
                   zero(x) == REq(x[1][3], 0) /\ REq(x[2 * N + 1][3], 0)
                   ok == lev(f) /\ lev(g) /\ zero(f) /\ zero(g)
                         /\ \A x \in {f, g} : (\E i \in Cells : i % 2 = 1 /\ ~REq(x[i][3], 0)) /\ \A i \in Cells : i % 2 = 0 => x[i][3] \in {x[i - 1][3], x[i + 1][3]}
               IN IF ~ok THEN TRUE
                  ELSE IF E.exc # "" THEN Chk("C03.convolution-raises", FALSE, E.exc)
                  ELSE Chk("C03.convolution", \A k \in 1..Len(E.zs) : Same_(E.vals[k], ConvAt(G, f, g, E.zs[k])), <<E.zs, E.vals, [k \in 1..Len(E.zs) |-> ConvAt(G, f, g, E.zs[k])]>>)
Next == New \/ Bin \/ MinMax \/ WithNumber \/ Unary \/ ShiftIt \/ MirrorIt \/ OverIt \/ CropIt \/ SplitIt
        \/ Integrate \/ Jaccard \/ Maximize \/ Domain_ \/ Equal \/ Convolve
Spec == Init /\ [][Next]_vars
=============================================================================
