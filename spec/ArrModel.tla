------------------------------ MODULE ArrModel ------------------------------
(***************************************************************************)
(* Arrays, views, slices and copies, exhaustively on a small scope: what a *)
(* handle reads is what was last written to that element, found by reading *)
(* the history backwards with multi-indices only (no storage positions):   *)
(* two elements are the same when they come from the same storage block    *)
(* and have the same full multi-index.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS Dims, Vals, MaxLen, MaxH
VARIABLES st, hist
vars == <<st, hist>>
INSTANCE ArrOps
It == INSTANCE Iter
Dims22 == <<2, 2>>
Dims212 == <<2, 1, 2>>
N == It!Prod(Dims)
RECURSIVE Boxes(_)
Boxes(d) == IF d = <<>> THEN {<<>>} ELSE {<<i>> \o s : i \in 0..d[1]-1, s \in Boxes(Tail(d))}
\* a handle as the user sees it: which block, and the indices fixed by brackets so far
Ops == {[o |-> "write", h |-> h, idx |-> x, v |-> v] : h \in DOMAIN st.hs, x \in UNION {Boxes(st.hs[h].dims) : h \in DOMAIN st.hs}, v \in Vals}
       \cup {[o |-> "slice", h |-> h, i |-> i, cst |-> FALSE] : h \in DOMAIN st.hs, i \in 0..1}
       \cup {[o |-> "copy", h |-> h] : h \in DOMAIN st.hs}
       \cup {[o |-> "assign", h |-> h, g |-> g] : h \in DOMAIN st.hs, g \in DOMAIN st.hs}
       \cup {[o |-> "swap", h |-> h, g |-> g] : h \in DOMAIN st.hs, g \in DOMAIN st.hs}
       \cup {[o |-> "raw", b |-> b, p |-> p, v |-> v] : b \in DOMAIN st.bufs, p \in 0..N-1, v \in Vals}
       \cup {[o |-> "view", b |-> b, cst |-> TRUE] : b \in DOMAIN st.bufs}
       \cup {[o |-> "list", list |-> l] : l \in {<<>>, <<7>>}}
       \cup {[o |-> "buffer", v |-> 4]}
Init == st = NoArrays /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E op \in Ops : /\ Allowed(Dims, st, op)
                           /\ st' = ArrApply(Dims, st, op) /\ hist' = Append(hist, op)
        /\ Len(st'.hs) <= MaxH
Spec == Init /\ [][Next]_vars
\* ---- the same story without positions: an element is <<block, full multi-index>>
RECURSIVE BlockCount(_)
BlockCount(k) == IF k = 0 THEN 0 ELSE BlockCount(k-1) + (IF hist[k].o \in {"copy", "list", "buffer"} THEN 1 ELSE 0)
RECURSIVE Handles(_)
Handles(k) ==
  IF k = 0 THEN <<>>
  ELSE LET op == hist[k]  p == Handles(k-1) IN
       IF op.o \in {"copy", "list", "buffer"} THEN Append(p, <<BlockCount(k), <<>> >>)
       ELSE IF op.o = "view" THEN Append(p, <<op.b, <<>> >>)
       ELSE IF op.o = "slice" THEN Append(p, <<p[op.h][1], Append(p[op.h][2], op.i)>>)
       ELSE p
HandleOf(h, k) == Handles(k)[h]
RECURSIVE UnRank(_, _)          \* row-major: the p-th multi-index in lexicographic order
UnRank(p, d) == IF d = <<>> THEN <<>> ELSE <<p \div It!Prod(Tail(d))>> \o UnRank(p % It!Prod(Tail(d)), Tail(d))
Cardinality0(S) == IF S = {} THEN 0 ELSE LET RECURSIVE C(_)
                                              C(T) == IF T = {} THEN 0 ELSE 1 + C(T \ {CHOOSE t \in T : TRUE})
                                          IN C(S)
RankOf(x) == Cardinality0({y \in Boxes(Dims) : It!LexLess(y, x)})
RECURSIVE Val(_, _, _)          \* value of element x of block b after k operations
Val(b, x, k) ==
  LET op == hist[k]  p == Handles(k-1) IN
  IF op.o = "write" /\ p[op.h][1] = b /\ p[op.h][2] \o op.idx = x THEN op.v
  ELSE IF op.o = "raw" /\ op.b = b /\ RankOf(x) = op.p THEN op.v
  ELSE IF op.o = "assign" /\ p[op.h][1] = b THEN Val(p[op.g][1], x, k-1)
  ELSE IF op.o = "swap" /\ p[op.h][1] = b THEN Val(p[op.g][1], x, k-1)
  ELSE IF op.o = "swap" /\ p[op.g][1] = b THEN Val(p[op.h][1], x, k-1)
  ELSE IF op.o = "copy" /\ BlockCount(k) = b THEN Val(p[op.h][1], x, k-1)
  ELSE IF op.o = "list" /\ BlockCount(k) = b THEN (IF RankOf(x) < Len(op.list) THEN op.list[RankOf(x) + 1] ELSE 0)
  ELSE IF op.o = "buffer" /\ BlockCount(k) = b THEN RankOf(x) + op.v
  ELSE Val(b, x, k-1)
ReadsLastWrite ==
  \A h \in DOMAIN st.hs : LET hv == HandleOf(h, Len(hist))  img == Image(st, st.hs[h]) IN
    /\ hv[1] = st.hs[h].b
    /\ Len(img) = It!Prod(st.hs[h].dims)
    /\ \A p \in 0..Len(img)-1 : img[p+1] = Val(hv[1], hv[2] \o UnRank(p, st.hs[h].dims), Len(hist))
\* a write changes one element of one block; other blocks keep their values
OneElement == [][LET op == hist'[Len(hist')] IN
                 op.o \in {"write", "raw"} =>
                   /\ Len(st'.bufs) = Len(st.bufs)
                   /\ Cardinality0({<<b, q>> \in (DOMAIN st.bufs) \X (1..N) : st.bufs[b][q] # st'.bufs[b][q]}) <= 1]_vars
\* no slice, copy or view disturbs what already is
NoDisturbance == [][LET op == hist'[Len(hist')] IN
                    op.o \in {"slice", "view", "copy", "list", "buffer"} =>
                      \A b \in DOMAIN st.bufs : st'.bufs[b] = st.bufs[b]]_vars
Within == \A h \in DOMAIN st.hs : st.hs[h].off >= 0 /\ st.hs[h].off + It!Prod(st.hs[h].dims) <= N
=============================================================================
