----------------------------- MODULE KernelGen ------------------------------
(* Random sequences of launches as scripts: <<kind, form, buffer, offset, function, a, abort flag>>. *)
EXTENDS GenBase
CONSTANTS MaxLen
VARIABLES hist, done
Sizes == <<1, 7, 40, 3>>
Init == hist = <<>> /\ done = FALSE
Op(z) == [q \in 1..7 |-> CASE q = 1 -> Rnd({1, 1, 2, 2, 2, 3, 4}) [] q = 2 -> Rnd(0..7) [] q = 3 -> Rnd(1..4) [] q = 4 -> Rnd(0..40) [] q = 5 -> Rnd(1..5) [] q = 6 -> Rnd(-50..50) [] q = 7 -> Rnd(0..1)]
Step == Len(hist) < MaxLen /\ hist' = Append(hist, Op(hist)) /\ UNCHANGED done
Finish == Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED hist /\ EmitTo(IOEnv.OUT, hist)
Next == Step \/ Finish
Spec == Init /\ [][Next]_<<hist, done>>
=============================================================================
