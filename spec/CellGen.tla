------------------------------ MODULE CellGen -------------------------------
(***************************************************************************)
(* Random behaviours of the cells' state machine as scripts for the real   *)
(* code: <<type index, number of cells, operations>>.  Values are integers *)
(* (the harness divides by 8, exactly).                                    *)
(***************************************************************************)
EXTENDS GenBase
CONSTANTS Sizes,       \* numbers held by a cell of each type, Sizes[type] = <<list length, components, points per direction>>
          MaxLen, Weights
VARIABLES tp, hist, done,
          cur          \* the list last given to each cell
NC == 3
Init == tp = 0 /\ hist = <<>> /\ done = FALSE /\ cur = <<>>
V == -64..64
\* lists with structure: a parallelepiped, all entries equal, the last list of a cell; with up to two entries changed or none
Box(n, k, dims, o, M) ==
  [q \in 1..(n * k) |->
     LET a == (q - 1) \div k  i == ((q - 1) % k) + 1
         ix == <<a % dims[1], (a \div dims[1]) % dims[2], a \div (dims[1] * dims[2])>>
     IN o[i] + 8 * (M[3*i - 2] * ix[1] + M[3*i - 1] * ix[2] + M[3*i] * ix[3])]
Structured(how, c, n, k) ==
  CASE how = 1 -> IF Sizes[tp][3] = <<>> THEN [q \in 1..(n * k) |-> 16] ELSE Box(n, k, Sizes[tp][3], RndSeq(3, -16..16), RndSeq(9, -2..2))
    [] how = 2 -> LET v == Rnd(V) IN [q \in 1..(n * k) |-> v]
    [] how = 3 -> cur[c]
    [] how = 4 -> cur[Rnd(1..NC)]
Change(l, m, ps, vs) == [q \in DOMAIN l |-> IF m >= 1 /\ q = ps[1] THEN vs[1] ELSE IF m >= 2 /\ q = ps[2] THEN vs[2] ELSE l[q]]
ListFor(c, n, k) ==
  LET how == Rnd(0..6) IN
  IF how \in {0, 5} THEN RndSeq(n * k, V)
  ELSE Change(Structured(IF how = 6 THEN 3 ELSE how, c, n, k), Rnd(0..2),
              RndSeq(2, IF Rnd(1..2) = 1 THEN 1..(n * k) ELSE (1..k) \cup ((n - 1) * k + 1)..(n * k)), RndSeq(2, V))
OpOf(code) ==
  LET n == Sizes[tp][1]  k == Sizes[tp][2] IN
  CASE code = 1 -> LET c == Rnd(1..NC) IN <<1, c>> \o ListFor(c, n, k)
    [] code = 2 -> <<2, Rnd(1..NC), Rnd(1..(n * k)), Rnd(V)>>
    [] code = 3 -> <<3, Rnd(1..NC), Rnd(1..NC)>>
    [] code = 4 -> <<4, Rnd(1..NC), Rnd(1..NC)>>
    [] code = 5 -> <<5, Rnd(1..NC)>>
    [] code = 6 -> <<6, Rnd(1..NC), Rnd(0..2), Rnd(-16..16), Rnd(-16..16), Rnd(-16..16)>>
    [] code = 7 -> <<7, Rnd(1..NC), Rnd(0..1), Rnd(-16..16), Rnd(-16..16), Rnd(-16..16)>>
After(op) == CASE op[1] = 1 -> [cur EXCEPT ![op[2]] = SubSeq(op, 3, Len(op))]
                [] op[1] \in {3, 4} -> [cur EXCEPT ![op[3]] = cur[op[2]]]
                [] OTHER -> cur
Pick == tp = 0 /\ \E t \in {Rnd(1..Len(Sizes))} : tp' = t /\ cur' = [c \in 1..NC |-> [q \in 1..(Sizes[t][1] * Sizes[t][2]) |-> 8]] /\ UNCHANGED <<hist, done>>
Step == /\ tp # 0 /\ Len(hist) < MaxLen
        /\ LET c == IF Len(hist) < NC THEN 0 ELSE Weights[Rnd(1..Len(Weights))]
           IN \E op \in {IF c = 0 THEN <<1, Len(hist) + 1>> \o RndSeq(Sizes[tp][1] * Sizes[tp][2], V) ELSE OpOf(c)} :
                hist' = Append(hist, op) /\ cur' = After(op)
        /\ UNCHANGED <<tp, done>>
Finish == /\ Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<tp, hist, cur>>
          /\ EmitTo(IOEnv.OUT, <<tp, NC, hist>>)
Next == Pick \/ Step \/ Finish
Spec == Init /\ [][Next]_<<tp, hist, done, cur>>
\* the types driven (h_geom.cpp has the same list)
SizesTab == << <<8, 3, <<2, 2, 2>> >>, <<24, 3, <<2, 3, 4>> >>, <<12, 3, <<2, 3, 2>> >>, <<12, 3, <<3, 2, 2>> >>, <<18, 3, <<3, 3, 2>> >>, <<6, 2, <<2, 3>> >>, <<36, 3, <<6, 2, 3>> >>,
               <<3, 1, <<>> >>, <<1, 1, <<>> >>, <<3, 1, <<>> >>, <<1, 1, <<>> >> >>
SizesLin == SubSeq(SizesTab, 1, 7)
SizesScal == SubSeq(SizesTab, 8, 11)
WData == << 1, 1, 1, 2, 2, 2, 3, 4, 6, 7 >>
WJac  == << 1, 1, 2, 6, 6, 6, 6, 6, 3 >>
WInv  == << 1, 1, 2, 7, 7, 7, 7, 7, 6 >>
WScal == << 1, 1, 1, 2, 2, 3, 4, 5, 6, 6, 7, 7 >>
=============================================================================
