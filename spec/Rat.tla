-------------------------------- MODULE Rat --------------------------------
(* Exact rational arithmetic (see java/Rat.java, the TLC override that      *)
(* implements it: TLC's own integers have 32 bits).  A rational is its      *)
(* canonical string "n" or "n/d"; "inf", "-inf" and "nan" extend the line.  *)
(* TLA+ integers are accepted wherever a rational is expected.  The         *)
(* definitions below are placeholders that TLC never evaluates: the         *)
(* assumptions at the end fail when the override is missing or wrong.       *)
EXTENDS Integers, Sequences
LOCAL Missing == "override missing"
RNorm(a)    == Missing
RAdd(a, b)  == Missing
RSub(a, b)  == Missing
RMul(a, b)  == Missing
RDiv(a, b)  == Missing      \* "nan" for a zero divisor
RNeg(a)     == Missing
RShort(a)   == Missing      \* a cut to 100 significant bits
RAbs(a)     == Missing
RLt(a, b)   == FALSE        \* all comparisons are false on "nan"
RLe(a, b)   == FALSE
REq(a, b)   == FALSE
RIsNaN(a)   == FALSE
RIsFin(a)   == FALSE
RClose(a, b, tol) == FALSE  \* |a - b| <= tol * max(1, |a|, |b|)
RSum(s)     == Missing
RProd(s)    == Missing
RDot(s, t)  == Missing
RFloor(a)   == 0

RMax(a, b)  == IF RLe(a, b) THEN b ELSE a
RMin(a, b)  == IF RLe(a, b) THEN a ELSE b

(* Self-test of the trusted override against TLC's native integers.         *)
ASSUME RAdd("1/3", "1/6") = "1/2"
ASSUME \A a, b \in -4..4 :
          /\ RAdd(a, b) = RNorm(a + b)
          /\ RSub(a, b) = RNorm(a - b)
          /\ RMul(a, b) = RNorm(a * b)
          /\ RLt(a, b) = (a < b)
          /\ RLe(a, b) = (a <= b)
          /\ REq(a, b) = (a = b)
          /\ (b # 0 => RMul(RDiv(a, b), b) = RNorm(a))
          /\ (b = 0 => RIsNaN(RDiv(a, b)))
          /\ RMax(a, b) = (IF a >= b THEN a ELSE b)
ASSUME \A a, b \in -4..4, c, d \in 1..4 :
          /\ RLt(RDiv(a, c), RDiv(b, d)) = (a * d < b * c)
          /\ RAdd(RDiv(a, c), RDiv(b, d)) = RDiv(a * d + b * c, c * d)
          /\ RFloor(RDiv(a, c)) = a \div c
ASSUME /\ RSum(<<"1/2", "1/3", "1/6">>) = "1"
       /\ RProd(<<"1/2", "2/3">>) = "1/3"
       /\ RDot(<<1, 2>>, <<3, "1/2">>) = "4"
       /\ RClose("1/3", "333333333333333333/1000000000000000000", "1/1000000000")
       /\ ~RClose("1/3", "1/2", "1/1000000000")
       /\ RLt("-inf", 0) /\ RLt(0, "inf") /\ ~RLt("nan", 0) /\ ~RLe(0, "nan")
       /\ ~RClose("nan", "0", 1) /\ ~RClose("inf", 0, 1)
=============================================================================
