------------------------------ MODULE FieldGen ------------------------------
(* Random behaviours of the field machine, as scripts for the real code:    *)
(* <<type index, operations>>.                                              *)
EXTENDS GenBase
CONSTANTS Types,       \* <<number of support points, dimension>> of each element type driven
          MaxLen, NF, NP
VARIABLES tp, hist, done
Init == tp = 0 /\ hist = <<>> /\ done = FALSE
V == -64..64
C == -24..24
Kinds == << 1, 1, 2, 3, 4, 5, 6, 6, 7, 7, 8, 8, 8, 9, 9, 9, 10, 11 >>
OpOf(k) ==
  LET n == Types[tp][1]  d == Types[tp][2] IN
  CASE k = 1 -> <<1, Rnd(1..NF), Rnd(1..n), Rnd(V)>>
    [] k = 2 -> <<2, Rnd(1..NF), Rnd(V)>>
    [] k = 3 -> <<3, Rnd(1..NF), Rnd(-9..9)>>
    [] k = 4 -> <<4, Rnd(1..NF), Rnd(1..NF)>>
    [] k = 5 -> <<5, Rnd(1..NF), Rnd(1..NF)>>
    [] k = 6 -> <<6, Rnd(1..NP)>> \o RndSeq(d, C)
    [] k = 7 -> <<7, Rnd(1..NP), Rnd(1..d), Rnd(C)>>
    [] k \in 8..10 -> <<k, Rnd(1..NF), Rnd(1..NP), Rnd(0..2)>>
    [] k = 11 -> <<11, Rnd(0..3)>>
Pick == tp = 0 /\ tp' = Rnd(1..Len(Types)) /\ UNCHANGED <<hist, done>>
\* the first steps fill the store
Step == /\ tp # 0 /\ Len(hist) < MaxLen
        /\ LET L == Len(hist) IN
           hist' = Append(hist, IF L < NF THEN <<3, L + 1, Rnd(-9..9)>>
                                ELSE IF L < NF + NP THEN <<6, L + 1 - NF>> \o RndSeq(Types[tp][2], C)
                                ELSE OpOf(Kinds[Rnd(1..Len(Kinds))]))
        /\ UNCHANGED <<tp, done>>
Finish == /\ Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<tp, hist>>
          /\ EmitTo(IOEnv.OUT, <<tp, hist>>)
Next == Pick \/ Step \/ Finish
Spec == Init /\ [][Next]_<<tp, hist, done>>
\* (h_fe.cpp has the same list)
Types0 == << <<6, 2>>, <<8, 3>>, <<4, 1>>, <<6, 2>>, <<12, 3>>, <<9, 2>> >>
=============================================================================
