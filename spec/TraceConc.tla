------------------------------ MODULE TraceConc -----------------------------
(***************************************************************************)
(* Conformance of recorded evaluations (in one thread or several) with     *)
(* ConcOps.  Outcomes are numbered per operation and input, 0 being the    *)
(* one the evaluation has when a fresh process evaluates nothing else.     *)
(***************************************************************************)
EXTENDS TraceHist
Alone(f, x) == 0
C == INSTANCE ConcOps WITH Result <- Alone
CInit(hd) == C!ConcStart(0..(hd.threads - 1))
CApply(hd, s, op) == CASE op.o = "begin" -> C!Begin(s, op.t, op.f, op.x) [] op.o = "end" -> C!End(s, op.t) [] op.o = "race" -> s
COk(hd, s, s2, op) ==
  CASE op.o = "begin" -> C!CanBegin(s, op.t)
    [] op.o = "end" -> C!CanEnd(s, op.t, op.out)
    [] op.o = "race" -> op.reports = 0       \* no state is shared but what is only read
=============================================================================
