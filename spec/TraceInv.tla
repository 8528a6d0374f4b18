------------------------------ MODULE TraceInv ------------------------------
(***************************************************************************)
(* Conformance of matrix inversion (C15): the routine replaces the matrix  *)
(* with its inverse and yields its signed determinant.                     *)
(***************************************************************************)
EXTENDS Geom, TraceBase
K == 8
JudgeInv(e) ==
  /\ e.k = "inv" /\ Len(e.a) = 9 /\ Len(e.r) = 9
  /\ LET u == UTab[e.t]
         M == TLCEval([i \in 1..3 |-> TLCEval([j \in 1..3 |-> BE(RFloat(e.a[(i-1)*3 + j]))])])
         D == TLCEval(Det3(M, u))
     IN /\ WithinT(e.det, D, K, e.t)
        /\ BOk(D) => LET V == Inv3(M, u) IN \A i \in 1..3, j \in 1..3 : WithinT(e.r[(i-1)*3 + j], V[i][j], K, e.t)
=============================================================================
