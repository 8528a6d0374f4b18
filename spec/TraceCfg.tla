------------------------------ MODULE TraceCfg ------------------------------
(***************************************************************************)
(* Conformance with CfgModel's self-composition: one line is one operation *)
(* of the program run in lock step by every configuration and both moments *)
(* of evaluation.  Equal outcomes come grouped with the configurations     *)
(* that delivered them; every outcome has to agree with the first - equal  *)
(* in what is discrete, within rounding of the magnitudes involved where   *)
(* it is floating point - and every configuration has to be present.       *)
(***************************************************************************)
EXTENDS Ball, TraceBase, FiniteSets
RECURSIVE RMaxAbs(_, _, _)
RMaxAbs(s, k, m) == IF k > Len(s) THEN m
                    ELSE LET a == RAbs(RFloat(s[k])) IN RMaxAbs(s, k + 1, IF RLt(m, a) THEN a ELSE m)
Close(t, u, x, y) ==
  /\ Len(x) = Len(y)
  /\ \A i \in 1..Len(x) : IsFinite(x[i]) /\ IsFinite(y[i])
  /\ LET s == RMaxAbs(x, 1, R1)  tol == RMul(RMul(RInt(u), U(t)), s)
     IN \A i \in 1..Len(x) : RLe(RAbs(RSub(RFloat(x[i]), RFloat(y[i]))), tol)
Agree(t, u, x, y) == x = y \/ (t \in {"f", "d"} /\ Close(t, u, x, y))
\* e.out: sequence of [cfgs, op, t, u, in, v]
OkOp(e) ==
  LET a == e.out[1] IN
  /\ UNION {{b.cfgs[i] : i \in 1..Len(b.cfgs)} : b \in {e.out[k] : k \in 1..Len(e.out)}} = {e.all[i] : i \in 1..Len(e.all)}
  /\ \A k \in 1..Len(e.out) : LET b == e.out[k] IN
       /\ b.op = a.op /\ b.t = a.t /\ b.u = a.u /\ b.in = a.in
       /\ Agree(a.t, a.u, a.v, b.v)
\* a translation unit the specification says is well-formed in this configuration
OkTu(e) == e.rc = 0
JudgeCfg(e) == CASE e.k = "op" -> OkOp(e) [] e.k = "tu" -> OkTu(e)
=============================================================================
