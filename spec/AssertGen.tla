----------------------------- MODULE AssertGen ------------------------------
(***************************************************************************)
(* Random programs of assertions as scripts for the real code:             *)
(* operations <<site, fail, format, abort, a, b>>.  Failing uses of the    *)
(* macro are rare so that programs are long before they end.               *)
(***************************************************************************)
EXTENDS GenBase
CONSTANTS MaxLen, LongLen, Sites, Formats
VARIABLES hist, done, len
Init == hist = <<>> /\ done = FALSE /\ len = 0
\* one program in forty is long, and nothing in it asks to abort before its end
Pick == len = 0 /\ len' = (IF Rnd(1..40) = 1 THEN Rnd(40..LongLen) ELSE Rnd(1..MaxLen)) /\ UNCHANGED <<hist, done>>
\* sites 1..Sites are uses of the macro, Sites+1.. are direct calls
Ends == len > MaxLen => Len(hist) = len - 1
Op(z) == [q \in 1..6 |-> IF q = 1 THEN (IF len > MaxLen /\ Rnd(1..2) = 1 THEN Rnd(Sites + 1..Sites + 4) ELSE Rnd(1..Sites + 4)) ELSE IF q = 2 THEN (IF Ends /\ Rnd(1..9) = 1 THEN 1 ELSE 0)
                      ELSE IF q = 3 THEN Rnd(0..Formats - 1) ELSE IF q = 4 THEN (IF Ends /\ Rnd(1..8) = 1 THEN 1 ELSE 0) ELSE IF q = 5 THEN Rnd(-999999..999999) ELSE Rnd(0..(IF len > MaxLen THEN 90 ELSE IF Rnd(1..100) = 1 THEN 200000 ELSE 6000))]
Step == len > 0 /\ Len(hist) < len /\ hist' = Append(hist, Op(hist)) /\ UNCHANGED <<done, len>>
Finish == len > 0 /\ Len(hist) = len /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist, len>> /\ EmitTo(IOEnv.OUT, hist)
Next == Pick \/ Step \/ Finish
Spec == Init /\ [][Next]_<<hist, done, len>>
=============================================================================
