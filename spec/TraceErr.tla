------------------------------ MODULE TraceErr ------------------------------
(***************************************************************************)
(* Conformance of programs of assertions: how the process ended, its       *)
(* standard error line by line, and what was evaluated.                    *)
(***************************************************************************)
EXTENDS AssertOps, TraceHist
\* the messages of the harness' formats
RECURSIVE Xs(_)
Xs(n) == IF n = 0 THEN "" ELSE IF n % 2 = 1 THEN Xs(n-1) \o "x" ELSE Xs(n \div 2) \o Xs(n \div 2)
Msg(f, a, b) ==
  CASE f = 0 -> "plain text"
    [] f = 1 -> "value " \o ToString(a) \o " end"
    [] f = 2 -> "left and right"
    [] f = 3 -> "100% of " \o ToString(a)
    [] f = 4 -> "Index out of bounds: 0 < index(" \o ToString(a) \o ") < dim(" \o ToString(b) \o ")"
    [] f = 5 -> "2.5 z"
    [] f = 6 -> "long " \o Xs(b) \o "!"
    [] f = 7 -> "   42|7   |00ff"
    [] f = 8 -> "9223372036854775807"
    [] f = 9 -> ""
    [] f = 10 -> "%d %n%%"
    [] f = 11 -> ToString(a) \o " 0.75 str 7"
At(t, k, s) == k + Len(s) - 1 <= Len(t) /\ SubSeq(t, k, k + Len(s) - 1) = s
EndsWith(t, s) == Len(s) <= Len(t) /\ At(t, Len(t) - Len(s) + 1, s)
HasText(t, s) == EndsWith(t, s) \/ \E k \in 1..(Len(t) - Len(s) + 1) : At(t, k, s)
\* file, then line number, then message
RECURSIVE FirstAfter(_, _, _)
FirstAfter(t, s, k) == IF k > Len(t) - Len(s) + 1 THEN 0 ELSE IF At(t, k, s) THEN k ELSE FirstAfter(t, s, k+1)
IsReport(t, r) ==
  LET f == FirstAfter(t, r.file, 1) IN
  /\ f > 0
  /\ LET n == FirstAfter(t, ToString(r.line), f + Len(r.file)) IN
     /\ n > 0
     /\ HasText(SubSeq(t, n + Len(ToString(r.line)), Len(t)), r.msg)
Full(op) == [o |-> op.o, cond |-> op.cond, abort |-> op.abort, file |-> op.file, line |-> op.line, nargs |-> op.nargs, msg |-> Msg(op.fmt, op.a, op.b)]
PInit(hd) == AStart
PApply(hd, s, op) == IF op.o = "end" THEN s ELSE ADo(s, Full(op))
POk(hd, s, s2, op) ==
  op.o = "end" =>
    /\ op.how = (IF s.aborted THEN "abort" ELSE "ok")
    /\ op.conds = s.conds /\ op.args = s.args /\ op.done = s.done
    /\ ~op.out /\ op.nl
    /\ Len(op.lines) \in Len(s.reports)..(Len(s.reports) + (IF s.aborted THEN 1 ELSE 0))      \* an abort may be announced
    /\ \A q \in 1..Len(s.reports) : IsReport(op.lines[q], s.reports[q])
=============================================================================
