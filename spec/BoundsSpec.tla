----------------------------- MODULE BoundsSpec -----------------------------
(* The machine of module Bounds over every small box and index vector around it. *)
EXTENDS Bounds, TLC
CONSTANTS MaxD, MaxR
VARIABLES dims, x, given, s
vars == <<dims, x, given, s>>
It == INSTANCE Iter
Shapes == UNION {[1..r -> 1..MaxD] : r \in 1..MaxR}
Init == /\ dims \in Shapes
        /\ x \in [1..Len(dims) -> -2..MaxD+1]
        /\ given \in 1..Len(dims)
        /\ s = Start
Next == s.phase = "checking" /\ s' = LevelStep(s, x, given, dims) /\ UNCHANGED <<dims, x, given>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* nothing is touched before every index was checked, and only the right element then
NoTouchBeforeChecked == s.phase # "done" => s.touched = {}
RightElement == s.phase = "done" => /\ InBox(x, given, dims) /\ s.touched = {ElemAt(x, given, dims)}
                                    /\ ElemAt(x, given, dims) \in 0..It!Prod(dims)-1
AbortNames == s.phase = "aborted" => ~InBox(x, given, dims) /\ (x[s.named] < 0 \/ x[s.named] >= dims[s.named])
Ends == <>(s.phase = (IF InBox(x, given, dims) THEN "done" ELSE "aborted"))
\* why each level must check: a vector outside the box can have a position inside the storage
ASSUME \E v \in [1..2 -> -2..4] : ~InBox(v, 2, <<2, 3>>) /\ It!Lin(v, <<2, 3>>) \in 0..5
=============================================================================
