---------------------------- MODULE KernelModel -----------------------------
(* Every short sequence of launches: each runs once, in order, and changes only its own data. *)
EXTENDS KernelOps
CONSTANT MaxLen
VARIABLES s, prog
Sizes == <<2, 1>>
Ops == [o : {"plain"}, a : {1}, id : {1}] \cup [o : {"data"}, b : 1..2, off : {0}, fn : 1..5, a : {1}, id : {2}] \cup [o : {"data"}, b : {1}, off : {1}, fn : 1..2, a : {2}, id : {3}]
       \cup [o : {"both"}, b : {2}, fn : {1}, a : {3}, id : {4}] \cup [o : {"null"}, id : {5}]
Init == s = KStart(Sizes) /\ prog = <<>>
Next == Len(prog) < MaxLen /\ \E op \in Ops : prog' = Append(prog, op) /\ s' = KApply(s, op)
Spec == Init /\ [][Next]_<<s, prog>>
OnceInOrder == s.log = [q \in DOMAIN prog |-> prog[q].id]
Touches(op) == IF op.o \in {"data", "both"} THEN {op.b} ELSE {}
Frame == [][LET op == prog'[Len(prog')] IN
            /\ \A b \in (1..2) \ Touches(op) : s'.bufs[b] = s.bufs[b]
            /\ (op.o = "data" => SubSeq(s'.bufs[op.b], 1, op.off) = SubSeq(s.bufs[op.b], 1, op.off))
            /\ (op.o \in {"data", "null"} => s'.sum = s.sum)]_<<s, prog>>
Sized == \A b \in 1..2 : Len(s.bufs[b]) = Sizes[b]
=============================================================================
