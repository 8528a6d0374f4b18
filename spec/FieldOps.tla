------------------------------ MODULE FieldOps ------------------------------
(***************************************************************************)
(* Fields on one element as a state machine.  State: the numbers at the    *)
(* support points of each field and the coordinates of each evaluation     *)
(* point (in units of 1/8 and 1/16).  Evaluations read the state and       *)
(* change nothing; their outcome is a function of the current numbers of   *)
(* one field and the current coordinates of one point, whatever was        *)
(* evaluated before.                                                       *)
(***************************************************************************)
EXTENDS FE
FieldInit(nf, np, total, dim) == [f |-> [a \in 1..nf |-> [q \in 1..total |-> 0]], p |-> [a \in 1..np |-> [d \in 1..dim |-> 0]]]
FieldApply(s, op) ==
  CASE op.o = "set"  -> [s EXCEPT !.f[op.a] = [@ EXCEPT ![op.q] = op.v]]
    [] op.o = "fill" -> [s EXCEPT !.f[op.a] = [q \in DOMAIN @ |-> op.v]]
    [] op.o = "ramp" -> [s EXCEPT !.f[op.a] = [q \in DOMAIN @ |-> op.v * q]]
    [] op.o = "copy" -> [s EXCEPT !.f[op.a] = s.f[op.b]]
    [] op.o = "swap" -> [s EXCEPT !.f[op.a] = s.f[op.b], !.f[op.b] = s.f[op.a]]
    [] op.o = "pt"   -> [s EXCEPT !.p[op.a] = op.x]
    [] op.o = "at"   -> [s EXCEPT !.p[op.a] = [@ EXCEPT ![op.q] = op.v]]
    [] op.o \in {"val", "grad", "both"} -> s
    [] op.o = "other" -> s       \* something else is evaluated in between
XOf(s, a) == [d \in DOMAIN s.p[a] |-> RFrac(s.p[a][d], 16)]
VOf(s, a, q) == RFrac(s.f[a][q], 8)
ValueB(t, dims, s, a, b) ==
  LET B == BasesAt(t, dims, XOf(s, b))  box == LexBox(Counts(dims))  u == UTab[t]
  IN BSum([m \in 1..Len(box) |-> BMul(TVal(B, box[m], u), BE(VOf(s, a, m)), u)], u)
GradB(t, dims, s, a, b, c) ==
  LET B == BasesAt(t, dims, XOf(s, b))  box == LexBox(Counts(dims))  u == UTab[t]
  IN BSum([m \in 1..Len(box) |-> BMul(TGrad(B, box[m], c, u), BE(VOf(s, a, m)), u)], u)
=============================================================================
