------------------------------ MODULE AggChain ------------------------------
(***************************************************************************)
(* Header trees of sizes no random tree reaches: a long chain of includes, *)
(* a header that includes very many, and a wide diamond.                   *)
(***************************************************************************)
EXTENDS GenBase, Agg
CONSTANTS Deep, Wide
VARIABLES done
Name(q) == <<"c", "h" \o ToString(q) \o ".hpp">>
Inc(q) == [k |-> "inc", n |-> <<"h" \o ToString(q) \o ".hpp">>, f |-> q % 7, t |-> 0]
Text(q) == [k |-> "text", n |-> <<>>, f |-> 0, t |-> (q % 30) + 1]
Once == [k |-> "pragma", n |-> <<>>, f |-> 0, t |-> 0]
File(q, incs) == [p |-> Name(q), nl |-> TRUE, lines |-> <<Once>> \o incs \o <<Text(q)>>]
Tree(fs, roots) == [files |-> fs, incs |-> <<>>, roots |-> roots, form |-> Rnd(0..3)]
Chain == Tree([q \in 1..Deep |-> File(q, IF q = 1 THEN <<>> ELSE <<Inc(q - 1)>>)], <<Deep>>)
Star == Tree([q \in 1..Wide |-> File(q, IF q < Wide THEN <<>> ELSE [j \in 1..(Wide - 1) |-> Inc(j)])], <<Wide, 1>>)
Diamond == Tree([q \in 1..Wide |-> File(q, IF q = 1 THEN <<>> ELSE IF q < Wide THEN <<Inc(1)>> ELSE [j \in 1..(Wide - 2) |-> Inc(Wide - j)])], <<Wide>>)
\* every header includes all earlier ones
Stairs == LET m == Wide \div 8 IN Tree([q \in 1..m |-> File(q, [j \in 1..(q - 1) |-> Inc(j)])], <<m>>)
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ EmitTo(IOEnv.OUT, Chain) /\ EmitTo(IOEnv.OUT, Star) /\ EmitTo(IOEnv.OUT, Diamond) /\ EmitTo(IOEnv.OUT, Stairs)
Spec == Init /\ [][Next]_done
=============================================================================
