-------------------------------- MODULE Iter --------------------------------
(***************************************************************************)
(* Iteration over boxes of multi-indices, as an odometer, and the          *)
(* row-major linear index.  Compile-time loops are the same machine        *)
(* started at zero.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
NoIdx == <<>>
NonEmpty(st, rg) == \A d \in 1..Len(rg) : st[d] < rg[d]
First(st, rg) == IF NonEmpty(st, rg) THEN st ELSE NoIdx
Succ(idx, st, rg) ==
  LET can == {d \in 1..Len(rg) : idx[d] + 1 < rg[d]} IN
  IF can = {} THEN NoIdx
  ELSE LET d == CHOOSE d \in can : \A e \in can : e <= d
       IN [e \in 1..Len(rg) |-> IF e < d THEN idx[e] ELSE IF e = d THEN idx[e] + 1 ELSE st[e]]
\* row-major position: last index fastest
RECURSIVE LinAt(_, _, _, _)
LinAt(idx, rg, d, acc) == IF d > Len(rg) THEN acc ELSE LinAt(idx, rg, d+1, acc * rg[d] + idx[d])
Lin(idx, rg) == LinAt(idx, rg, 1, 0)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Zeros(n) == [d \in 1..n |-> 0]
RECURSIVE LexLess(_, _)
LexLess(a, b) == IF a = <<>> THEN FALSE ELSE a[1] < b[1] \/ (a[1] = b[1] /\ LexLess(Tail(a), Tail(b)))
=============================================================================
