-------------------------------- MODULE Rat --------------------------------
(* Exact rationals.  The primitive operators have a Java override with the *)
(* meaning given here (java/VerifOverrides.java, cross-checked by RatSelf).*)
EXTENDS RatPure
RInt(i)       == P_RInt(i)
RAdd(x, y)    == P_RAdd(x, y)
RSub(x, y)    == P_RSub(x, y)
RMul(x, y)    == P_RMul(x, y)
RDiv(x, y)    == P_RDiv(x, y)
RNeg(x)       == P_RNeg(x)
RCmp(x, y)    == P_RCmp(x, y)
RTrunc(x, b)  == P_RTrunc(x, b)
RFloat(t)     == P_RFloat(t)

RLt(x, y) == RCmp(x, y) < 0
RLe(x, y) == RCmp(x, y) <= 0
RAbs(x) == IF x[1][1] < 0 THEN RNeg(x) ELSE x
RSgn(x) == x[1][1]
RIsZero(x) == x[1][1] = 0
RMax(x, y) == IF RLt(x, y) THEN y ELSE x
R0 == RInt(0)
R1 == RInt(1)
R2 == RInt(2)
RFrac(a, b) == RDiv(RInt(a), RInt(b))
RECURSIVE RPow(_, _)
RPow(x, k) == IF k = 0 THEN R1 ELSE RMul(x, RPow(x, k-1))
RPow2(k) == IF k >= 0 THEN RPow(R2, k) ELSE RDiv(R1, RPow(R2, -k))
RECURSIVE RSumSeq(_)
RSumSeq(s) == IF s = <<>> THEN R0 ELSE RAdd(Head(s), RSumSeq(Tail(s)))
RECURSIVE RProdSeq(_)
RProdSeq(s) == IF s = <<>> THEN R1 ELSE RMul(Head(s), RProdSeq(Tail(s)))
=============================================================================
