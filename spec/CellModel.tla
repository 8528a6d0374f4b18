----------------------------- MODULE CellModel ------------------------------
(***************************************************************************)
(* The cells' state machine, exhaustively: after any sequence of           *)
(* operations each number of each cell is the one last written to it, read *)
(* backwards off the history.  One-dimensional cells with NS support       *)
(* points.                                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS NC, NS, Vals, MaxLen
VARIABLES st, hist
vars == <<st, hist>>
FL(hd, list) == list
DF(hd) == [p \in 1..NS |-> 0]
INSTANCE CellOps WITH FromList <- FL, Default <- DF
Ops == {[o |-> "set", c |-> c, list |-> l] : c \in 1..NC, l \in [1..NS -> Vals]}
       \cup {[o |-> "mod", c |-> c, p |-> p, v |-> v] : c \in 1..NC, p \in 1..NS, v \in Vals}
       \cup {[o |-> "copy", c |-> c, d |-> d] : c \in 1..NC, d \in 1..NC}
       \cup {[o |-> "def", d |-> d] : d \in 1..NC}
       \cup {[o |-> "jac", c |-> c] : c \in 1..NC}
Init == st = [c \in 1..NC |-> DF(0)] /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E op \in Ops : st' = CellApply(0, st, op) /\ hist' = Append(hist, op)
Spec == Init /\ [][Next]_vars
\* the number at position p of cell c after the first k operations
RECURSIVE Last(_, _, _)
Last(c, p, k) ==
  IF k = 0 THEN 0
  ELSE LET op == hist[k] IN
       IF op.o = "set" /\ op.c = c THEN op.list[p]
       ELSE IF op.o = "mod" /\ op.c = c /\ op.p = p THEN op.v
       ELSE IF op.o = "copy" /\ op.d = c THEN Last(op.c, p, k-1)
       ELSE IF op.o = "def" /\ op.d = c THEN 0
       ELSE Last(c, p, k-1)
LastWriteWins == \A c \in 1..NC, p \in 1..NS : st[c][p] = Last(c, p, Len(hist))
QueriesChangeNothing == [][\A c \in 1..NC : (hist' # hist /\ hist'[Len(hist')].o = "jac") => st' = st]_vars
OthersUntouched == [][\A c \in 1..NC : LET op == hist'[Len(hist')] IN
                        (c # (IF op.o \in {"copy", "def"} THEN op.d ELSE op.c)) => st'[c] = st[c]]_vars
=============================================================================
