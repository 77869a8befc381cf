----------------------------- MODULE MCDiscrete -----------------------------
(* The laws of conditioning, mixing and adding for all small distributions. *)
EXTENDS DiscMachine
VARIABLES A, B
Init == MInit /\ A \in SUBSET (1..N) /\ B \in SUBSET (1..N)
Next == /\ UNCHANGED <<A, B>>
        /\ \/ Held = {} /\ \E f \in Compositions : Set(1, f, "set")
           \/ Held = {1} /\ op.op = "set" /\ (\/ \E k \in 1..N : Imp(2, 1, k)
                                              \/ Crop(2, 1, A)
                                              \/ \E f \in Compositions : Set(2, f, "set"))
           \/ Held = {1, 2} /\ op.op # "merge" /\ \E w \in Weights : Merge(1, 1, 2, w)
Spec == Init /\ [][Next]_<<mvars, A, B>>
D == reg[1]
Lab == [i \in 1..N |-> RNorm(i - 2)]
AllProper == \A r \in Held : Proper(reg[r])
CropCrop == (Held # {} /\ RLt(0, ProbOf(D, A \cap B))) => Condition(Condition(D, A), B) = Condition(D, A \cap B)
TotalProb == LET p == IF Held # {} THEN ProbOf(D, A) ELSE "0" IN
    (RLt(0, p) /\ RLt(p, 1)) => Mixture(<<Condition(D, A), Condition(D, (1..N) \ A)>>, <<p, RSub(1, p)>>) = D
Additive == Held # {} => RAdd(ProbOf(D, A \cap B), ProbOf(D, A \ B)) = ProbOf(D, A)
ExpectationLinear == op.op = "merge" =>
    REq(MeanD(reg[1], Lab), RDot(op.w, <<MeanD(prev[1], Lab), MeanD(prev[2], Lab)>>))
VarianceIdentity == Held # {} => REq(VarD(D, Lab), RSub(MomentD(D, Lab, 2, "0"), RMul(MeanD(D, Lab), MeanD(D, Lab))))
ConvolveAdds == Held = {1, 2} =>
    LET c == Convolve(reg[1], reg[2]) lab == [i \in 1..(2 * N - 1) |-> RNorm(i - 3)] IN
    Proper(c) /\ REq(MeanD(c, lab), RAdd(MeanD(reg[1], Lab), MeanD(reg[2], Lab)))
              /\ REq(VarD(c, lab), RAdd(VarD(reg[1], Lab), VarD(reg[2], Lab)))
OverlapRange == Held = {1, 2} => LET j == Overlap(reg[1], reg[2]) IN RLe(0, j) /\ RLe(j, 1) /\ (REq(j, 1) <=> reg[1] = reg[2])
=============================================================================
