------------------------------ MODULE TraceAgg ------------------------------
(***************************************************************************)
(* Conformance of the aggregation script: the sections it wrote are a run  *)
(* of the emission machine, their lines are the headers' lines, and        *)
(* splitting recreates each section below the output directory only; a     *)
(* circle of includes is reported.                                         *)
(***************************************************************************)
EXTENDS Agg, TraceHist
GInit(hd) == LET g == Graph(hd.files, hd.incs) IN LET need == TLCEval(Reach(g, ToSet(hd.roots))) IN [deps |-> g, need |-> need, acyclic |-> TLCEval(NoCircle(g, need)), paths |-> TLCEval(Paths(hd.files)), out |-> <<>>, secs |-> <<>>]
Known(s, op) == op.p \in s.paths
GApply(hd, s, op) ==
  IF op.o = "emit" /\ Known(s, op) THEN [s EXCEPT !.out = Append(@, IndexOf(hd.files, op.p)), !.secs = Append(@, [n |-> op.p, lines |-> op.lines])] ELSE s
Neutral(t) == Len(t) >= 2 /\ SubSeq(t, 1, 2) = "//"
SameLines(lines, got) ==
  /\ Len(got) = Len(lines)
  /\ \A q \in DOMAIN lines : IF lines[q].k = "text" THEN got[q] = lines[q].s ELSE Neutral(got[q])
\* the files made by a split are the sections, each below the output directory under (the end of) its name
EndOf(p, n) == Len(p) >= 1 /\ Len(p) <= Len(n) /\ SubSeq(n, Len(n) - Len(p) + 1, Len(n)) = p
MadeOk(op, secs) ==
  /\ op.rc = 0 /\ ~op.elsewhere
  /\ Len(op.made) = Len(secs)
  /\ \A q \in DOMAIN secs : Cardinality({m \in DOMAIN op.made : op.made[m].lines = secs[q].lines /\ \E full \in {Norm(secs[q].n)} : EndOf(op.made[m].p, full) \/ EndOf(full, op.made[m].p)}) >= 1
  /\ \A m \in DOMAIN op.made : \E q \in DOMAIN secs : op.made[m].lines = secs[q].lines /\ (EndOf(op.made[m].p, Norm(secs[q].n)) \/ EndOf(Norm(secs[q].n), op.made[m].p))
GOk(hd, s, s2, op) ==
  CASE op.o = "emit"  -> /\ Known(s, op)
                         /\ LET q == IndexOf(hd.files, op.p) IN CanEmit(s.deps, s.need, s.out, q) /\ SameLines(hd.files[q].lines, op.lines)
    [] op.o = "end" /\ ~s.acyclic -> op.rc # 0 /\ op.rc # -1000 /\ ~op.elsewhere         \* (-1000: it had to be stopped)
    [] op.o = "end"   -> op.rc = 0 /\ ~op.junk /\ ~op.elsewhere /\ op.n = Len(s.out) /\ ToSet(s.out) = s.need
    [] op.o = "split" -> s.acyclic => MadeOk(op, s.secs)
    [] op.o = "hand"  -> MadeOk(op, op.secs)
=============================================================================
