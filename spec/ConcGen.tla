------------------------------- MODULE ConcGen ------------------------------
(***************************************************************************)
(* Random programs for several threads as scripts:                         *)
(* <<threads, <<<<thread, operation, input>>, ...>>>>.  Operations repeat  *)
(* with other inputs, in other orders and by other threads.                *)
(***************************************************************************)
EXTENDS GenBase
CONSTANTS MaxT, MaxLen, NOps, NIns
VARIABLES hist, few, nt, done
Init == hist = <<>> /\ few = <<>> /\ nt = 0 /\ done = FALSE
Pick == nt = 0 /\ \E t \in {Rnd(1..MaxT)}, k \in {Rnd(1..3)} : nt' = t /\ (\E fs \in {RndSeq(k, 0..(NOps - 1))} : few' = fs) /\ UNCHANGED <<hist, done>>
Step == /\ nt > 0 /\ Len(hist) < MaxLen
        /\ \E t \in {Rnd(0..(nt - 1))}, f \in {IF Rnd(0..3) = 0 THEN Rnd(0..(NOps - 1)) ELSE few[Rnd(DOMAIN few)]}, x \in {Rnd(0..(NIns - 1))} : hist' = Append(hist, <<t, f, x>>)
        /\ UNCHANGED <<few, nt, done>>
Finish == Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ EmitTo(IOEnv.OUT, <<nt, hist>>) /\ UNCHANGED <<hist, few, nt>>
Next == Pick \/ Step \/ Finish
Spec == Init /\ [][Next]_<<hist, few, nt, done>>
=============================================================================
