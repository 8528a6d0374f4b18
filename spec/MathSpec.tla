------------------------------ MODULE MathSpec ------------------------------
(* Powers, factorials and binomials as step-by-step machines: the product   *)
(* built so far is the closed value at every step.                          *)
EXTENDS Shape, TLC
VARIABLES op, a, i, acc
vars == <<op, a, i, acc>>
Init == /\ op \in {"pow", "fact", "row"}
        /\ a \in (IF op = "pow" THEN -5..5 ELSE {0})
        /\ i = 0
        /\ acc = IF op = "row" THEN << R1 >> ELSE R1
Lim == IF op = "row" THEN 20 ELSE 20
Next == /\ i < Lim /\ i' = i + 1 /\ UNCHANGED <<op, a>>
        /\ acc' = CASE op = "pow" -> RMul(acc, RInt(a))
                    [] op = "fact" -> RMul(acc, RInt(i+1))
                    [] op = "row" -> [q \in 1..(i+2) |-> IF q = 1 \/ q = i+2 THEN R1 ELSE RAdd(acc[q-1], acc[q])]
Spec == Init /\ [][Next]_vars
Law == CASE op = "pow" -> acc = RPow(RInt(a), i)
         [] op = "fact" -> acc = RFact(i)
         [] op = "row" -> \A k \in 0..i : acc[k+1] = RBinom(i, k)
=============================================================================
