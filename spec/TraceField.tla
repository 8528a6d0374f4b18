----------------------------- MODULE TraceField -----------------------------
(* Conformance of field histories with module FieldOps: every evaluation in  *)
(* the history gives the interpolant of the field's current numbers at the   *)
(* point's current coordinates.                                              *)
EXTENDS FieldOps, TraceHist
K == 8
TfInit(hd) == FieldInit(hd.nf, hd.np, hd.n, Len(hd.dims))
TfApply(hd, s, op) == FieldApply(s, op)
OkV(hd, s, op) == WithinT(op.v, ValueB(hd.t, hd.dims, s, op.a, op.b), K, hd.t)
OkG(hd, s, op) == /\ Len(op.g) = Len(hd.dims)
                  /\ \A c \in 1..Len(hd.dims) : WithinT(op.g[c], GradB(hd.t, hd.dims, s, op.a, op.b, c), K, hd.t)
TfOk(hd, s, s2, op) ==
  CASE op.o = "val"  -> OkV(hd, s2, op)
    [] op.o = "grad" -> OkG(hd, s2, op)
    [] op.o = "both" -> OkV(hd, s2, op) /\ OkG(hd, s2, op)
    [] OTHER -> TRUE
=============================================================================
