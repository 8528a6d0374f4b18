------------------------------- MODULE AggGen -------------------------------
(***************************************************************************)
(* Random header trees (acyclic, or cyclic, by the specification's own     *)
(* resolution), roots, include directories and forms of the command line.  *)
(***************************************************************************)
EXTENDS GenBase, Agg
CONSTANTS MaxF, MaxL, Cyclic
VARIABLES files, order, done
Dirs == << <<>>, <<"a">>, <<"a", "b">>, <<"c">>, <<"c", "a">>, <<"a", "a">> >>
Names == << "x.hpp", "x.hpp", "y.hpp", "z.hpp", "w w.hpp", "MyShivaConfig.hpp", "ShivaConfig.hpp.hpp", "ShivaConfig.hpp" >>
NT == 30                                       \* kinds of other text (the driver has the list)
Init == files = <<>> /\ order = 0 /\ done = FALSE
PickN == order = 0 /\ order' = Rnd(2..MaxF) /\ UNCHANGED <<files, done>>
\* a relative name of file p as seen from directory d: up to the root, then down (or down from a common ancestor)
RECURSIVE CommonLen(_, _)
CommonLen(a, b) == IF a = <<>> \/ b = <<>> \/ a[1] # b[1] THEN 0 ELSE 1 + CommonLen(Tail(a), Tail(b))
Ups(n) == [q \in 1..n |-> ".."]
RelName(d, p, short) == LET c == IF short THEN CommonLen(d, Front(p)) ELSE 0 IN Ups(Len(d) - c) \o SubSeq(p, c + 1, Len(p))
\* ways to name an earlier file
NameOf(d, p, way) == CASE way = 1 -> <<Last(p)>>
                       [] way = 2 -> RelName(d, p, TRUE)
                       [] way = 3 -> RelName(d, p, FALSE)
                       [] way = 4 -> p                                  \* from the root of the tree
                       [] way = 5 -> IF Len(p) > 1 THEN Tail(p) ELSE p  \* from an include directory
                       [] way = 6 -> <<".">> \o RelName(d, p, TRUE)
                       [] way = 7 -> <<"missing.hpp">>
                       [] way = 8 -> Exempt
                       [] way = 9 -> <<"a", Last(p)>>                   \* may be found in several places
                       [] way = 10 -> IF Len(p) > 2 THEN Tail(Tail(p)) ELSE <<"c", "..">> \o p
Ways == << 1, 1, 2, 2, 3, 4, 4, 5, 5, 6, 7, 8, 9, 9, 9, 9, 10, 10 >>
LineOf(d, k) ==
  IF k <= 2 /\ files # <<>> THEN [k |-> "inc", n |-> (CHOOSE n \in {LET p == files[Rnd(DOMAIN files)].p IN IF Last(p) = "ShivaConfig.hpp" THEN Exempt ELSE NameOf(d, p, Ways[Rnd(DOMAIN Ways)])} : TRUE), f |-> Rnd(0..6), t |-> 0]
  ELSE IF k = 3 THEN [k |-> "pragma", n |-> <<>>, f |-> Rnd(0..3), t |-> 0]
  ELSE [k |-> "text", n |-> <<>>, f |-> 0, t |-> Rnd(1..NT)]
Pick(i, j) == Dirs[i] \o <<Names[j]>>
AddFile ==
  /\ order > 0 /\ Len(files) < order
  /\ \E p \in {Pick(Rnd(DOMAIN Dirs), Rnd(DOMAIN Names))}, n \in {Rnd(0..MaxL)} :
       IF p \in Paths(files) THEN UNCHANGED files
       ELSE \E ks \in {RndSeq(n, 1..5)} :
         files' = Append(files, [p |-> p, nl |-> Rnd(0..3) # 0, lines |-> [q \in 1..n |-> LineOf(Dir(p), ks[q])]])
  /\ UNCHANGED <<order, done>>
Emit ==
  /\ order > 0 /\ Len(files) = order /\ ~done /\ done' = TRUE /\ UNCHANGED <<files, order>>
  /\ \E ni \in {Rnd(0..6)}, nr \in {Rnd(1..4)} :
     \E incs \in {[q \in 1..ni |-> Dirs[Rnd(1..Len(Dirs))]]}, roots \in {RndSeq(nr, DOMAIN files)} :
       LET eff == IF incs = <<>> THEN <<<<>>>> ELSE incs IN       \* the default is the current directory, the root of the tree
       IF Cyclic = ~NoCircle(Graph(files, eff), Reach(Graph(files, eff), {roots[q] : q \in DOMAIN roots}))
       THEN EmitTo(IOEnv.OUT, [files |-> files, incs |-> incs, roots |-> roots, form |-> Rnd(0..3)])
       ELSE TRUE
Next == PickN \/ AddFile \/ Emit
Spec == Init /\ [][Next]_<<files, order, done>>
=============================================================================
