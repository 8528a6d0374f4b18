----------------------------- MODULE AssertOps ------------------------------
(***************************************************************************)
(* A program made of assertions, one after another.                        *)
(* An operation is a use of the assertion macro ("use") or a direct call   *)
(* of the failure report ("call"), with its source location, its message   *)
(* as text, and whether it fails / asks to abort.  State: still running,   *)
(* reports so far, evaluations of conditions and of message arguments,     *)
(* operations completed.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
AStart == [alive |-> TRUE, reports |-> <<>>, conds |-> 0, args |-> 0, done |-> 0, aborted |-> FALSE]
Fails(op) == op.o = "call" \/ ~op.cond
Aborts(op) == Fails(op) /\ (op.o = "use" \/ op.abort)
ADo(s, op) ==
  IF ~s.alive THEN s
  ELSE [alive   |-> ~Aborts(op),
        reports |-> IF Fails(op) THEN Append(s.reports, [file |-> op.file, line |-> op.line, msg |-> op.msg]) ELSE s.reports,
        conds   |-> s.conds + (IF op.o = "use" THEN 1 ELSE 0),
        args    |-> s.args + (IF Fails(op) THEN op.nargs ELSE 0),
        done    |-> IF Aborts(op) THEN s.done ELSE s.done + 1,
        aborted |-> s.aborted \/ Aborts(op)]
=============================================================================
