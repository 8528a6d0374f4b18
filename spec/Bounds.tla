------------------------------- MODULE Bounds -------------------------------
(***************************************************************************)
(* A run-time access in a build with bounds checking, as a machine that    *)
(* checks one index per level and touches storage only after the last      *)
(* check.  Indices are numbers, whatever integer type holds them.          *)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL I == INSTANCE Iter
InBox(x, given, dims) == \A d \in 1..given : x[d] >= 0 /\ x[d] < dims[d]
\* element reached: the first of the slice when fewer indices are given
ElemAt(x, given, dims) == I!Lin([d \in 1..Len(dims) |-> IF d <= given THEN x[d] ELSE 0], dims)
Start == [lvl |-> 0, off |-> 0, phase |-> "checking", touched |-> {}, named |-> 0]
LevelStep(s, x, given, dims) ==
  LET d == s.lvl + 1 IN
  IF d > given THEN [s EXCEPT !.phase = "done", !.touched = {s.off}]
  ELSE IF x[d] < 0 \/ x[d] >= dims[d] THEN [s EXCEPT !.phase = "aborted", !.named = d]
  ELSE [s EXCEPT !.lvl = d, !.off = @ + x[d] * I!Prod(SubSeq(dims, d+1, Len(dims)))]
=============================================================================
