------------------------------ MODULE ShapeGen ------------------------------
(* Every array shape up to a rank and an extent, listed for the harness (one line each). *)
EXTENDS GenBase
CONSTANTS MaxR, MaxD
VARIABLE todo
Shapes == UNION {[1..r -> 1..MaxD] : r \in 1..MaxR}
Init == todo = Shapes
Next == todo # {} /\ \E s \in {CHOOSE s \in todo : TRUE} : todo' = todo \ {s} /\ EmitTo(IOEnv.OUT, s)
Spec == Init /\ [][Next]_todo
AllListed == TLCGet("stats").distinct = 1 + (IF MaxR = 3 THEN MaxD + MaxD*MaxD + MaxD*MaxD*MaxD ELSE MaxD + MaxD*MaxD + MaxD*MaxD*MaxD + MaxD*MaxD*MaxD*MaxD)
=============================================================================
