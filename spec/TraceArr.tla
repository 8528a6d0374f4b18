------------------------------ MODULE TraceArr ------------------------------
(***************************************************************************)
(* Conformance of array histories: after every operation every handle      *)
(* reads what the specification's storage holds.                           *)
(***************************************************************************)
EXTENDS ArrOps, TraceHist
AInit(hd) == NoArrays
AApply(hd, s, op) == ArrApply(hd.dims, s, op)
AOk(hd, s, s2, op) ==
  /\ Allowed(hd.dims, s, op)
  /\ Len(op.after) = Len(s2.hs)
  /\ \A q \in 1..Len(op.after) : op.after[q] = Image(s2, s2.hs[q])
=============================================================================
