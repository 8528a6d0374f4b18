------------------------------ MODULE TraceUse ------------------------------
(* Conformance of what the compilers accept with UseOps. *)
EXTENDS TraceBase
U == INSTANCE UseOps
OkUse(e) == e.k = "use" /\ e.accepted = U!WellFormed(e.case)
=============================================================================
