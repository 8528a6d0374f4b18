------------------------------ MODULE TraceTol ------------------------------
(***************************************************************************)
(* Conformance of the tolerance predicate: true exactly when the values    *)
(* differ by less than the tolerance.  When the difference itself is       *)
(* rounded, a tie within its rounding error may go either way.             *)
(***************************************************************************)
EXTENDS Rat, TraceBase
UT(t) == IF t = "f" THEN RPow2(-24) ELSE RPow2(-53)
OkChk(e) ==
  LET d == RAbs(RSub(RFloat(e.a), RFloat(e.b)))  tol == RFloat(e.tol)  err == RMul(d, RMul(RInt(2), UT(e.t))) IN
  IF e.exact THEN e.r = RLt(d, tol)
  ELSE /\ RLt(RAdd(d, err), tol) => e.r
       /\ RLe(tol, RSub(d, err)) => ~e.r
       /\ RIsZero(d) => e.r = RLt(R0, tol)
JudgeTol(e) == CASE e.k = "chk" -> OkChk(e) [] e.k = "dealloc" -> e.destroyed = e.n
                 [] e.k = "sized" -> e.calls = 1 /\ e.same /\ e.seen = e.n /\ e.right = e.n /\ e.guards
=============================================================================
