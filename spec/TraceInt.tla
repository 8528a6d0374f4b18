------------------------------ MODULE TraceInt ------------------------------
(* Conformance of assembled element integrals (C22).                        *)
EXTENDS Int, TraceBase
K == 8
DataOf(e) == IF e.kind = "lin" THEN LET s == SetFromList(e.dims, e.list) IN TLCEval([q \in 1..Len(s) |-> RFloat(s[q])])
             ELSE TLCEval([q \in 1..Len(e.list) |-> RFloat(e.list[q])])
JudgeInt(e) ==
  LET u == UTab[e.t]
      X == DataOf(e)
      pts == PointsOf(e, X, u)
      nod == IF e.what = "mom" THEN TLCEval([q \in 1..Len(e.nod) |-> RFloat(e.nod[q])]) ELSE <<>>
  IN /\ e.k = "int" /\ Exactly(e) /\ e.rs # <<>>
     /\ (NeedsInv(e.what) => \A p \in 1..Len(pts) : pts[p].ok) =>
          \A j \in 1..Len(e.rs) :
            LET r == e.rs[j] IN WithinT(r[4], Integral(e, pts, r[1], r[2], r[3], nod, u), K, e.t)
=============================================================================
