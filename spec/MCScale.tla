------------------------------ MODULE MCScale ------------------------------
(* Why a scaled system answers like the unscaled one: under an affine map   *)
(* of the grid masses stay what they are, positions are mapped, moments     *)
(* scale with the power of the factor, and the order of the densities is    *)
(* kept.  For all small distributions and some maps.                        *)
EXTENDS MassMachine
VARIABLES a, b        \* value = (label - a) / b
vars == <<mvars, a, b>>
Init == MInit /\ a \in {"0", "-3", "1/2"} /\ b \in {"1/2", "2", "3"}
Next == /\ UNCHANGED <<a, b>>
        /\ \/ Held = {} /\ \E f \in Compositions : Lit(1, f)
           \/ Held = {1} /\ op.op = "literal" /\ (\E k \in 1..N : Imp(2, k))
           \/ Held = {1, 2} /\ op.op # "merge" /\ \E w \in Half : Merge(1, 1, 2, w)
Spec == Init /\ [][Next]_vars
To(x) == RDiv(RSub(x, a), b)
Back(y) == RAdd(RMul(y, b), a)
G1 == [k \in 1..N |-> To(G0[k])]
D == reg[1]
Xs == {G0[k] : k \in 1..N} \cup {RDiv(RAdd(G0[k], G0[k + 1]), 2) : k \in 1..(N - 1)} \cup {RSub(G0[1], 1), RAdd(G0[N], 1)}
RoundTrip == \A x \in Xs : Back(To(x)) = RNorm(x) /\ \A y \in Xs : RLt(x, y) <=> RLt(To(x), To(y))
SameCdf == Held # {} => \A x \in Xs : REq(CdfX(D, G0, x), CdfX(D, G1, To(x))) /\ REq(CdfXLeft(D, G0, x), CdfXLeft(D, G1, To(x)))
SameMean == Held # {} => REq(Mean(D, G0), Back(Mean(D, G1)))
SameMoments == Held # {} => \A k \in 1..3 : \A c \in Xs : REq(Moment(D, G0, k, c), RMul(Pow(b, k), Moment(D, G1, k, To(c))))
SameModes == Held # {} => \A j, k \in 1..(N - 1) : RLt(Dens(D, G0, j), Dens(D, G0, k)) <=> RLt(Dens(D, G1, j), Dens(D, G1, k))
DensityScales == Held # {} => \A k \in 1..(N - 1) : REq(RMul(b, Dens(D, G0, k)), Dens(D, G1, k))
=============================================================================
