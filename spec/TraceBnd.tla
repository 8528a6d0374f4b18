------------------------------ MODULE TraceBnd ------------------------------
(***************************************************************************)
(* Conformance of bounds-checked accesses, each observed in its own        *)
(* process: how it ended, what it printed, what it reached and changed.    *)
(***************************************************************************)
EXTENDS Rat, Bounds, TraceBase
RI(b) == << b, <<1, 1>> >>
Small(b, d) == RLe(R0, RI(b)) /\ RLt(RI(b), RInt(d))              \* 0 <= b < d
Val(b) == IF b = <<0>> THEN 0 ELSE b[2] + (IF Len(b) > 2 THEN 32768 * b[3] ELSE 0)     \* of one below an extent
\* the diagnostic prints indices as signed 64-bit numbers
Shown(b) == IF RLt(RI(b), RPow2(63)) THEN RI(b) ELSE RSub(RI(b), RPow2(64))
Named(e, d) == /\ \E q \in DOMAIN e.nums : RI(e.nums[q]) = Shown(e.idx[d])
               /\ \E q \in DOMAIN e.nums : RI(e.nums[q]) = RInt(e.dims[d])
AllSmall(e) == \A d \in 1..e.given : Small(e.idx[d], e.dims[d])
OkAcc(e) ==
  /\ e.given \in 1..Len(e.dims) /\ Len(e.idx) = Len(e.dims)
  /\ IF AllSmall(e)
     THEN LET x == [d \in 1..Len(e.dims) |-> IF d <= e.given THEN Val(e.idx[d]) ELSE 0] IN
          /\ InBox(x, e.given, e.dims)
          /\ e.how = "ok" /\ ~e.err /\ e.off = ElemAt(x, e.given, e.dims)
          /\ e.changed = (IF e.write THEN 1 ELSE 0)
          /\ e.write => e.at = e.off
     ELSE /\ e.how = "abort" /\ e.err /\ e.changed = 0
          /\ \E d \in 1..e.given : ~Small(e.idx[d], e.dims[d]) /\ Named(e, d)
JudgeBnd(e) == e.k = "acc" /\ OkAcc(e)
=============================================================================
