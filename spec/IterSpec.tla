------------------------------ MODULE IterSpec ------------------------------
(***************************************************************************)
(* The loop as a system: from every start, for every small box, the        *)
(* odometer visits each multi-index of the box exactly once in             *)
(* lexicographic order, and the row-major index is a bijection onto        *)
(* 0..product-1 that counts the visits of the loop from zero.              *)
(***************************************************************************)
EXTENDS Iter, FiniteSets
CONSTANTS MaxDims, MaxRange
VARIABLES rg, st, cur, seen
vars == <<rg, st, cur, seen>>
Boxes == UNION {[1..n -> 0..MaxRange] : n \in 1..MaxDims}
BoxOf(s, r) == {x \in [1..Len(r) -> -1..MaxRange] : \A d \in 1..Len(r) : s[d] <= x[d] /\ x[d] < r[d]}
Init == /\ rg \in Boxes
        /\ st \in [1..Len(rg) -> -1..1]
        /\ cur = First(st, rg) /\ seen = <<>>
Next == /\ cur # NoIdx
        /\ seen' = Append(seen, cur) /\ cur' = Succ(cur, st, rg) /\ UNCHANGED <<rg, st>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Zero == \A d \in 1..Len(rg) : st[d] = 0
InOrder == Len(seen) > 1 => LexLess(seen[Len(seen)-1], seen[Len(seen)])
InBox == cur # NoIdx => cur \in BoxOf(st, rg)
Counts == (Zero /\ cur # NoIdx) => Lin(cur, rg) = Len(seen)
Complete == cur = NoIdx => /\ Len(seen) = Cardinality(BoxOf(st, rg))
                           /\ {seen[q] : q \in 1..Len(seen)} = BoxOf(st, rg)
                           /\ Zero => Len(seen) = Prod(rg)
Terminates == <>(cur = NoIdx)
=============================================================================
