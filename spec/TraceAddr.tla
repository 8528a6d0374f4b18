----------------------------- MODULE TraceAddr ------------------------------
(***************************************************************************)
(* Conformance of element addresses: position = row-major index, whatever  *)
(* names the element; slices and metadata likewise.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TraceBase
I == INSTANCE Iter
Whole(e) == [q \in 1..I!Prod(e.dims) |-> q - 1]
Rest(e) == SubSeq(e.dims, Len(e.at) + 1, Len(e.dims))
PartOf(e) == LET r == Rest(e)  base == I!Lin(e.at, SubSeq(e.dims, 1, Len(e.at))) * I!Prod(r) IN [q \in 1..I!Prod(r) |-> base + q - 1]
InBox(x, d) == Len(x) <= Len(d) /\ \A q \in DOMAIN x : x[q] >= 0 /\ x[q] < d[q]
Paths == {"call", "tmpl"}
OkAddr(e) == e.path \in Paths /\ e.offs = Whole(e)
OkSlice(e) == e.path \in Paths /\ InBox(e.at, e.dims) /\ e.offs = PartOf(e)
OkMeta(e) == /\ e.rank = Len(e.dims) /\ e.ext = e.dims /\ e.size = I!Prod(e.dims)
             /\ e.bytes = (IF e.own = "own" THEN I!Prod(e.dims) ELSE -1)
OkSub(e) == /\ InBox(e.at, e.dims) /\ e.rank = Len(e.dims) - Len(e.at) /\ e.ext = Rest(e) /\ e.size = I!Prod(Rest(e))
            /\ e.offs = PartOf(e)
OkAt(e) == /\ e.path \in Paths /\ Len(e.pts) = Len(e.offs) /\ Len(e.pts) > 0
           /\ \A q \in DOMAIN e.pts : Len(e.pts[q]) = Len(e.dims) /\ InBox(e.pts[q], e.dims) /\ e.offs[q] = I!Lin(e.pts[q], e.dims)
JudgeAddr(e) == CASE e.k = "at" -> OkAt(e) [] e.k = "addr" -> OkAddr(e) [] e.k = "slice" -> OkSlice(e) [] e.k = "meta" -> OkMeta(e) [] e.k = "sub" -> OkSub(e)
=============================================================================
