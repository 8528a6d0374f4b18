------------------------------- MODULE ArrOps -------------------------------
(***************************************************************************)
(* Storage and handles of multidimensional arrays.  A state has a list of  *)
(* buffers (each the values of one storage block, in row-major order) and  *)
(* a list of handles; a handle names part of one buffer: where it starts   *)
(* and its extents.  Owning handles are arrays (one per storage block they *)
(* own), the others are views and slices, which share storage.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC
LOCAL I == INSTANCE Iter
RProd(s) == I!Prod(s)
Pos(hd, idx) == hd.off + I!Lin(idx, hd.dims) + 1           \* position of an element in its buffer
SliceOf(hd, i, cst) == [hd EXCEPT !.off = @ + i * I!Prod(Tail(hd.dims)), !.dims = Tail(@), !.own = FALSE, !.cst = @ \/ cst]
Image(st, hd) == SubSeq(st.bufs[hd.b], hd.off + 1, hd.off + I!Prod(hd.dims))      \* its elements, row-major
NewBuf(st, dims, vals, own) == [bufs |-> Append(st.bufs, vals),
                                hs |-> Append(st.hs, [b |-> Len(st.bufs) + 1, off |-> 0, dims |-> dims, own |-> own, cst |-> FALSE])]
NoArrays == [bufs |-> <<>>, hs |-> <<>>]
Iota(n, v) == [q \in 1..n |-> q - 1 + v]
ArrApply(dims, st, op) ==
  LET n == I!Prod(dims) IN
  CASE op.o = "write"  -> [st EXCEPT !.bufs[st.hs[op.h].b][Pos(st.hs[op.h], op.idx)] = op.v]
    [] op.o = "raw"    -> [st EXCEPT !.bufs[op.b][op.p + 1] = op.v]
    [] op.o = "slice"  -> [st EXCEPT !.hs = Append(@, SliceOf(st.hs[op.h], op.i, op.cst))]
    [] op.o = "view"   -> [st EXCEPT !.hs = Append(@, [b |-> op.b, off |-> 0, dims |-> dims, own |-> FALSE, cst |-> op.cst])]
    [] op.o = "copy"   -> NewBuf(st, dims, st.bufs[st.hs[op.h].b], TRUE)
    [] op.o = "assign" -> [st EXCEPT !.bufs[st.hs[op.h].b] = st.bufs[st.hs[op.g].b]]
    [] op.o = "swap"   -> [st EXCEPT !.bufs[st.hs[op.h].b] = st.bufs[st.hs[op.g].b], !.bufs[st.hs[op.g].b] = st.bufs[st.hs[op.h].b]]
    [] op.o = "list"   -> NewBuf(st, dims, [q \in 1..n |-> IF q <= Len(op.list) THEN op.list[q] ELSE 0], TRUE)
    [] op.o = "buffer" -> NewBuf(st, dims, Iota(n, op.v), FALSE)
\* which operations a state allows
Allowed(dims, st, op) ==
  CASE op.o = "write"  -> op.h \in DOMAIN st.hs /\ ~st.hs[op.h].cst /\ Len(op.idx) = Len(st.hs[op.h].dims)
                          /\ \A d \in DOMAIN op.idx : op.idx[d] >= 0 /\ op.idx[d] < st.hs[op.h].dims[d]
    [] op.o = "raw"    -> op.b \in DOMAIN st.bufs /\ op.p >= 0 /\ op.p < I!Prod(dims)
    [] op.o = "slice"  -> op.h \in DOMAIN st.hs /\ Len(st.hs[op.h].dims) > 1 /\ op.i >= 0 /\ op.i < st.hs[op.h].dims[1]
    [] op.o = "view"   -> op.b \in DOMAIN st.bufs
    [] op.o = "copy"   -> op.h \in DOMAIN st.hs /\ st.hs[op.h].own
    [] op.o \in {"assign", "swap"} -> op.h \in DOMAIN st.hs /\ op.g \in DOMAIN st.hs /\ st.hs[op.h].own /\ st.hs[op.g].own
    [] op.o = "list"   -> Len(op.list) <= I!Prod(dims)
    [] op.o = "buffer" -> TRUE
=============================================================================
