------------------------------- MODULE MCMass -------------------------------
(* The laws of conditioning and mixing, for all distributions and sets up   *)
(* to the given size.                                                       *)
EXTENDS MassMachine
VARIABLES A, B
vars == <<mvars, A, B>>
Init == /\ MInit
        /\ A \in SUBSET AllCells(N) /\ B \in {S \in SUBSET AllCells(N) : IsRun(S)}
Next == /\ UNCHANGED <<A, B>>
        /\ \/ Held = {} /\ \E f \in Compositions : Lit(1, f)
           \/ Held = {1} /\ op.op = "literal" /\ (\/ \E k \in 1..N : Imp(2, k)
                                                  \/ Crop(2, 1, A, <<>>)
                                                  \/ \E k \in 1..N : CropPoint(2, 1, k))
           \/ Held = {1, 2} /\ op.op # "merge" /\ \E w \in Half : Merge(1, 1, 2, w)
Spec == Init /\ [][Next]_vars
D == reg[1]
One(x) == REq(x, 1)
Proper == \A r \in Held : One(RSum(reg[r])) /\ \A i \in 1..NCells(N) : RLe(0, reg[r][i])
(* conditioning twice is conditioning on the intersection                   *)
CropCrop == (Held # {} /\ RLt(0, MassOf(D, A \cap B))) => CropTo(CropTo(D, A), B) = CropTo(D, A \cap B)
(* the law of total probability: mixing the parts restores the whole        *)
Total == LET p == IF Held # {} THEN MassOf(D, A) ELSE "0" IN
         (RLt(0, p) /\ RLt(p, 1)) => Mix(<<CropTo(D, A), CropTo(D, AllCells(N) \ A)>>, <<p, RSub(1, p)>>) = D
(* conditioning a union mixes the conditioned parts by their mass           *)
UnionCrop == LET A1 == A \ B IN
    (Held # {} /\ RLt(0, MassOf(D, A1)) /\ RLt(0, MassOf(D, B))) =>
        CropTo(D, A1 \cup B) = Mix(<<CropTo(D, A1), CropTo(D, B)>>,
            <<RDiv(MassOf(D, A1), RAdd(MassOf(D, A1), MassOf(D, B))), RDiv(MassOf(D, B), RAdd(MassOf(D, A1), MassOf(D, B)))>>)
Conditional == (Held # {} /\ RLt(0, MassOf(D, A))) => MassOf(CropTo(D, A), B) = RDiv(MassOf(D, A \cap B), MassOf(D, A))
Additive == Held # {} => RAdd(MassOf(D, A \cap B), MassOf(D, A \ B)) = MassOf(D, A)
(* expectation is linear in mixtures; the second moment about the mean is   *)
(* the least                                                                *)
ExpectationLinear == op.op = "merge" =>
    REq(Mean(reg[1], G0), RDot(op.w, <<Mean(prev[1], G0), Mean(prev[2], G0)>>))
VarianceIdentity == Held # {} => REq(Var(D, G0), RSub(Moment(D, G0, 2, "0"), RMul(Mean(D, G0), Mean(D, G0))))
CdfMonotone == Held # {} => \A k \in 1..N : RLe(CdfLeft(D, k), CdfAt(D, k)) /\ (k < N => RLe(CdfAt(D, k), CdfLeft(D, k + 1)))
JaccardRange == Held = {1, 2} => LET j == Jaccard(reg[1], reg[2]) IN RLe(0, j) /\ RLe(j, 1) /\ (One(j) <=> reg[1] = reg[2])
=============================================================================
