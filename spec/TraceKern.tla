----------------------------- MODULE TraceKern ------------------------------
(* Conformance of kernel launches: what is visible when each launch returns. *)
EXTENDS KernelOps, TraceHist
KInit(hd) == KStart(hd.sizes)
KStep(hd, s, op) == KApply(s, op)
KOk(hd, s, s2, op) ==
  /\ op.o \in {"plain", "data", "both", "null"}
  /\ op.calls = 1 /\ op.same /\ op.guards
  /\ op.log = s2.log /\ op.sum = s2.sum /\ op.bufs = s2.bufs
=============================================================================
