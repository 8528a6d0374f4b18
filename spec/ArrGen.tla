------------------------------- MODULE ArrGen -------------------------------
(***************************************************************************)
(* Random behaviours of the arrays' state machine, each step an operation  *)
(* the state allows, written as scripts <<type, operations>> for the real  *)
(* code.                                                                   *)
(***************************************************************************)
EXTENDS GenBase, FiniteSets
CONSTANTS Types,       \* <<type index, extents>> driven by the harness
          MaxLen, MaxH
VARIABLES tp, st, hist, done
INSTANCE ArrOps
It == INSTANCE Iter
vars == <<tp, st, hist, done>>
Dims == Types[tp][2]
N == It!Prod(Dims)
V == -99..99
Init == tp = 0 /\ st = NoArrays /\ hist = <<>> /\ done = FALSE
Pick == tp = 0 /\ tp' = Rnd(1..Len(Types)) /\ UNCHANGED <<st, hist, done>>
Owners == {h \in DOMAIN st.hs : st.hs[h].own}
Mut == {h \in DOMAIN st.hs : ~st.hs[h].cst}
Sliceable == {h \in DOMAIN st.hs : Len(st.hs[h].dims) > 1}
Room == Len(st.hs) < MaxH
\* kinds of operation possible now (weights by repetition)
Kinds == (IF Mut # {} THEN <<"write", "write", "write", "write", "write">> ELSE <<>>)
         \o (IF Room /\ Sliceable # {} THEN <<"slice", "slice", "slice">> ELSE <<>>)
         \o (IF Room /\ Owners # {} THEN <<"copy">> ELSE <<>>)
         \o (IF Cardinality(Owners) > 1 THEN <<"assign", "assign", "swap">> ELSE <<>>)
         \o (IF Len(st.bufs) > 0 THEN <<"raw", "raw">> ELSE <<>>)
         \o (IF Room /\ Len(st.bufs) > 0 THEN <<"view", "view">> ELSE <<>>)
         \o (IF Room THEN <<"list", "buffer">> ELSE <<>>)
B(b) == IF b THEN 1 ELSE 0
\* an operation and its script line
Do(op, line) == Allowed(Dims, st, op) /\ st' = ArrApply(Dims, st, op) /\ hist' = Append(hist, line)
Step ==
  /\ tp # 0 /\ Len(hist) < MaxLen
  /\ UNCHANGED <<tp, done>>
  \* (each random choice is bound to a value once)
  /\ \E k \in {Kinds[Rnd(1..Len(Kinds))]} :
     CASE k = "write" -> \E h \in {Rnd(Mut)} : \E x \in {[d \in DOMAIN st.hs[h].dims |-> Rnd(0..st.hs[h].dims[d]-1)]}, v \in {Rnd(V)} :
                           Do([o |-> k, h |-> h, idx |-> x, v |-> v], <<1, h, Rnd(0..2), v>> \o x)
       [] k = "slice" -> \E h \in {Rnd(Sliceable)} : \E i \in {Rnd(0..st.hs[h].dims[1]-1)}, c \in {st.hs[h].own /\ Rnd(0..2) = 0} :
                           Do([o |-> k, h |-> h, i |-> i, cst |-> c], <<2, h, i, B(c)>>)
       [] k = "copy" -> \E h \in {Rnd(Owners)} : Do([o |-> k, h |-> h], <<3, h, Rnd(0..1)>>)
       [] k = "assign" -> \E h \in {Rnd(Owners)}, g \in {Rnd(Owners)} : Do([o |-> k, h |-> h, g |-> g], <<4, h, g, Rnd(0..1)>>)
       [] k = "swap" -> \E h \in {Rnd(Owners)}, g \in {Rnd(Owners)} : Do([o |-> k, h |-> h, g |-> g], <<9, h, g>>)
       [] k = "raw" -> \E b \in {Rnd(DOMAIN st.bufs)}, p \in {Rnd(0..N-1)}, v \in {Rnd(V)} : Do([o |-> k, b |-> b, p |-> p, v |-> v], <<6, b, p, v, Rnd(0..1)>>)
       [] k = "view" -> \E b \in {Rnd(DOMAIN st.bufs)}, c \in {Rnd(0..2)} : Do([o |-> k, b |-> b, cst |-> c = 1], <<5, b, c>>)
       [] k = "list" -> \E n \in {Rnd(IF N <= 20 THEN 0..N ELSE {0, 1, 2, N \div 2, N - 1, N})} : \E l \in {RndSeq(n, V)} : Do([o |-> k, list |-> l], <<7>> \o l)
       [] k = "buffer" -> \E v \in {Rnd(V)} : Do([o |-> k, v |-> v], <<8, v>>)
Finish == /\ Len(hist) = MaxLen /\ ~done /\ done' = TRUE /\ UNCHANGED <<tp, st, hist>>
          /\ EmitTo(IOEnv.OUT, <<Types[tp][1], hist>>)
Next == Pick \/ Step \/ Finish
Spec == Init /\ [][Next]_vars
Types0 == << <<1, <<2, 3>>>>, <<2, <<5>>>>, <<3, <<3, 2, 2>>>>, <<4, <<2, 2, 1, 3>>>>, <<5, <<1, 4>>>>, <<6, <<4, 1, 2>>>>, <<7, <<3, 1>>>>, <<8, <<2, 3, 1, 1>>>> >>
Types1 == << <<9, <<70>>>>, <<10, <<9, 8>>>>, <<11, <<2, 66>>>>, <<12, <<3, 41, 2>>>>, <<13, <<1, 2, 3, 1, 2, 1, 3, 2>>>> >>
=============================================================================
