----------------------------- MODULE TraceCell ------------------------------
(***************************************************************************)
(* Conformance of cell histories: data (C18, C16), Jacobians (C14, C16),   *)
(* inverses and determinants (C15, C16).  The environment variable CHK     *)
(* names what is judged: data, jac, inv or all.                            *)
(***************************************************************************)
EXTENDS Geom, TraceHist
K == 8
Chk(s) == IOEnv.CHK = s \/ IOEnv.CHK = "all"
One == <<1, 0, 1, 0, 0, 0>>
Zero == <<0, 0, 0, 0, 0, 0>>
FL(hd, list) == IF hd.kind = "lin" THEN SetFromList(hd.dims, list) ELSE list
DF(hd) == [p \in 1..hd.sz |-> IF hd.kind = "lin" THEN Zero ELSE One]
CO == INSTANCE CellOps WITH FromList <- FL, Default <- DF
CInit(hd) == [c \in 1..hd.nc |-> DF(hd)]
CApply(hd, s, op) == CO!CellApply(hd, s, op)
\* ---- numerical observations, relative to the data the cell reports
X(op) == TLCEval([p \in 1..Len(op.after[op.c]) |-> RFloat(op.after[op.c][p])])
Finite(s) == \A q \in 1..Len(s) : IsFinite(s[q])
Rel(v, x, t, k) == IsFinite(v) /\ RLe(RAbs(RSub(RFloat(v), x)), RMul(RMul(RInt(k), UTab[t]), RAbs(x)))
LinJ(hd, op) == JacB(hd.dims, X(op), BasesAt(hd.t, hd.dims, [d \in 1..Len(hd.dims) |-> RFloat(op.x[d])]), UTab[hd.t])
OkJac(hd, op) ==
  CASE hd.kind = "lin" ->
         LET J == LinJ(hd, op)  D == Len(hd.dims) IN
         Len(op.J) = D*D /\ \A a \in 1..D, b \in 1..D : WithinT(op.J[(a-1)*D + b], J[a][b], K, hd.t)
    [] hd.kind = "scal" -> Len(op.J) = 3 /\ \A a \in 1..3 : Rel(op.J[a], RMul(Half, X(op)[a]), hd.t, 3)
    [] hd.kind = "unif" -> Len(op.J) = 1 /\ Rel(op.J[1], RMul(Half, X(op)[1]), hd.t, 3)
OkInv(hd, op) ==
  CASE hd.kind = "lin" ->
         LET J == LinJ(hd, op)  u == UTab[hd.t]  D == Det3(J, u) IN
         BOk(D) => /\ WithinT(op.det, D, K, hd.t)
                   /\ Len(op.J) = 9
                   /\ LET V == Inv3(J, u) IN \A a \in 1..3, b \in 1..3 : WithinT(op.J[(a-1)*3 + b], V[a][b], K, hd.t)
    [] hd.kind = "scal" ->
         (\A a \in 1..3 : ~RIsZero(X(op)[a])) =>
           /\ Len(op.J) = 3 /\ \A a \in 1..3 : Rel(op.J[a], RDiv(R2, X(op)[a]), hd.t, 4)
           /\ Rel(op.det, RMul(RFrac(1, 8), RProdSeq(X(op))), hd.t, 16)
    [] hd.kind = "unif" ->
         ~RIsZero(X(op)[1]) =>
           /\ Len(op.J) = 1 /\ Rel(op.J[1], RDiv(R2, X(op)[1]), hd.t, 4)
           /\ Rel(op.det, RMul(RFrac(1, 8), RPow(X(op)[1], 3)), hd.t, 16)
COk(hd, s, s2, op) ==
  /\ Chk("data") => op.after = s2 /\ (hd.jc <=> hd.kind # "lin")
  /\ (Chk("jac") /\ op.o = "jac") => OkJac(hd, op)
  /\ (Chk("inv") /\ op.o = "ijac") => OkInv(hd, op)
=============================================================================
