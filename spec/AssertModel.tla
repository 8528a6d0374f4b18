---------------------------- MODULE AssertModel -----------------------------
(* Every short program of assertions. *)
EXTENDS AssertOps, FiniteSets
CONSTANT MaxLen
VARIABLES s, prog
Ops == [o : {"use"}, cond : BOOLEAN, abort : {TRUE}, file : {"a"}, line : {1, 2}, msg : {"m"}, nargs : {1}]
       \cup [o : {"call"}, cond : {FALSE}, abort : BOOLEAN, file : {"b"}, line : {3}, msg : {"n"}, nargs : {2}]
Init == s = AStart /\ prog = <<>>
Next == Len(prog) < MaxLen /\ \E op \in Ops : prog' = Append(prog, op) /\ s' = ADo(s, op)
Spec == Init /\ [][Next]_<<s, prog>>
FailsIn(k) == Cardinality({q \in 1..k : Fails(prog[q])})
UsesIn(k) == Cardinality({q \in 1..k : prog[q].o = "use"})
FirstAbort == IF \E k \in 1..Len(prog) : Aborts(prog[k])
              THEN CHOOSE k \in 1..Len(prog) : Aborts(prog[k]) /\ \A q \in 1..k-1 : ~Aborts(prog[q])
              ELSE Len(prog)
\* nothing after the abort has any effect; before it, one report per failure, in order; conditions once each
Law == /\ s.aborted = (\E k \in 1..Len(prog) : Aborts(prog[k]))
       /\ s.alive = ~s.aborted
       /\ Len(s.reports) = FailsIn(FirstAbort)
       /\ s.conds = UsesIn(FirstAbort)
       /\ s.done = FirstAbort - (IF s.aborted THEN 1 ELSE 0)
       /\ (Len(s.reports) = 0) = (s.args = 0)
PassIsSilent == [][LET op == prog'[Len(prog')] IN
                   (s.alive /\ ~Fails(op)) => s'.reports = s.reports /\ s'.args = s.args /\ s'.conds = s.conds + 1 /\ s'.alive]_<<s, prog>>
OnlyGrows == [][SubSeq(s'.reports, 1, Len(s.reports)) = s.reports]_<<s, prog>>
Dead == [][s.alive \/ s' = s]_<<s, prog>>
=============================================================================
