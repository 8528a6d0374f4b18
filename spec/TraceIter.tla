----------------------------- MODULE TraceIter ------------------------------
(***************************************************************************)
(* Conformance of loops: every recorded loop is a run of the odometer.     *)
(* State: the multi-index due next, the calls so far, the last one.        *)
(***************************************************************************)
EXTENDS Iter, TraceHist
IInit(hd) == [due |-> First(hd.start, hd.ends), n |-> 0, last |-> NoIdx, over |-> FALSE]
IApply(hd, s, op) ==
  IF op.o = "call" THEN [s EXCEPT !.due = IF @ = NoIdx THEN NoIdx ELSE Succ(@, hd.start, hd.ends), !.n = @ + 1, !.last = op.idx]
  ELSE [s EXCEPT !.over = TRUE]
Has(op, f) == f \in DOMAIN op
FRes(x) == 7*x + 3
IOk(hd, s, s2, op) ==
  /\ op.o \in {"call", "end"} /\ ~s.over
  /\ op.o = "call" => /\ s.due # NoIdx /\ op.idx = s.due
                      /\ Has(op, "lin") => op.lin = Lin(op.idx, hd.ends)
                      /\ Has(op, "cv") => <<op.cv>> = op.idx
                      /\ Has(op, "cvs") => op.cvs = op.idx
  /\ op.o = "end" => /\ s.due = NoIdx /\ op.n = s.n
                     /\ Has(op, "res") => op.res = <<FRes(s.last[1])>>
=============================================================================
