-------------------------------- MODULE Ball --------------------------------
(***************************************************************************)
(* Midpoint-radius arithmetic: <<m, r>> stands for every real within r of  *)
(* m.  The midpoint follows the exact mathematical computation (up to a    *)
(* relative 2^-250), the radius bounds what any evaluation in arithmetic   *)
(* of unit roundoff u may deliver, in the standard model                   *)
(*     fl(a op b) = (a op b)(1 + d), |d| <= u.                             *)
(* It is the tolerance of every numerical judgement: a value is accepted   *)
(* iff it is explainable by rounding, amplified by the problem's own       *)
(* conditioning.                                                           *)
(***************************************************************************)
EXTENDS Rat
U(t) == IF t = "f" THEN RPow2(-24) ELSE RPow2(-53)
UTab == [d |-> U("d"), f |-> U("f")]
RUpFactor == RAdd(R1, RPow2(-28))
RUp(x) == IF RIsZero(x) THEN x ELSE RMul(RTrunc(x, 30), RUpFactor)     \* x <= RUp(x), short
Mid(x) == RTrunc(x, 250)
BE(x) == <<x, R0>>                                                     \* exactly known
BR(x, r) == <<x, RUp(r)>>
BAbsUp(a) == RAdd(RAbs(a[1]), a[2])
BRnd(m, r, u) == <<Mid(m), RUp(RAdd(r, RMul(u, RAdd(RAbs(m), r))))>>   \* one more rounding
BAdd(a, b, u) == BRnd(RAdd(a[1], b[1]), RAdd(a[2], b[2]), u)
BSub(a, b, u) == BRnd(RSub(a[1], b[1]), RAdd(a[2], b[2]), u)
BMul(a, b, u) == BRnd(RMul(a[1], b[1]),
                      RAdd(RAdd(RMul(RAbs(a[1]), b[2]), RMul(RAbs(b[1]), a[2])), RMul(a[2], b[2])), u)
BNeg(a) == <<RNeg(a[1]), a[2]>>
BOk(b) == RLt(b[2], RMul(RAbs(b[1]), RFrac(1, 4)))                     \* safely away from zero
\* 1/b, for BOk(b):  |1/(m+e) - 1/m| <= r / (|m| (|m|-r)) <= (4/3) r/m^2
BInv(b, u) == BRnd(RDiv(R1, b[1]), RMul(RFrac(4, 3), RDiv(b[2], RMul(b[1], b[1]))), u)
RECURSIVE RSumM(_, _)
RSumM(s, k) == IF k > Len(s) THEN R0 ELSE RAdd(s[k][1], RSumM(s, k+1))
RECURSIVE RSumR(_, _)
RSumR(s, k) == IF k > Len(s) THEN R0 ELSE RAdd(s[k][2], RSumR(s, k+1))
RECURSIVE RSumA(_, _)
RSumA(s, k) == IF k > Len(s) THEN R0 ELSE RAdd(RUp(RAbs(s[k][1])), RSumA(s, k+1))
\* a sum, in whatever order it is accumulated
BSum(s, u) == IF s = <<>> THEN BE(R0) ELSE IF Len(s) = 1 THEN s[1]
              ELSE LET n == Len(s)
                       r == RSumR(s, 1)
                   IN <<Mid(RSumM(s, 1)), RUp(RAdd(r, RMul(RMul(RInt(n), u), RAdd(RSumA(s, 1), r))))>>
RECURSIVE BProd(_, _)
BProd(s, u) == IF s = <<>> THEN BE(R1) ELSE IF Len(s) = 1 THEN s[1]
               ELSE BMul(s[Len(s)], BProd(SubSeq(s, 1, Len(s)-1), u), u)
\* A logged float (tuple) v is finite and explained by ball b with slack factor K.
IsFinite(v) == Len(v) > 2
Tiny == RPow2(-1000)
TinyF == RPow2(-120)
Within(v, b, K) == IsFinite(v) /\ RLe(RAbs(RSub(RFloat(v), b[1])), RAdd(RMul(RInt(K), b[2]), Tiny))
WithinT(v, b, K, t) == IsFinite(v) /\ RLe(RAbs(RSub(RFloat(v), b[1])), RAdd(RMul(RInt(K), b[2]), IF t = "f" THEN TinyF ELSE Tiny))
=============================================================================
