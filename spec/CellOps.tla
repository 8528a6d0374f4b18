------------------------------ MODULE CellOps -------------------------------
(***************************************************************************)
(* Cells holding data: st = sequence of the cells' data, each a sequence   *)
(* of numbers (opaque) in storage order.                                   *)
(*   set c list | mod c p v | copy c d | def d | queries (no effect)       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANT FromList(_, _)       \* header, list -> data
CONSTANT Default(_)           \* header -> data of a default-constructed cell
CellApply(hd, s, op) ==
  CASE op.o = "set"  -> [s EXCEPT ![op.c] = FromList(hd, op.list)]
    [] op.o = "mod"  -> [s EXCEPT ![op.c][op.p] = op.v]
    [] op.o = "copy" -> [s EXCEPT ![op.d] = s[op.c]]
    [] op.o = "def"  -> [s EXCEPT ![op.d] = Default(hd)]
    [] OTHER -> s
=============================================================================
