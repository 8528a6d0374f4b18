------------------------------ MODULE TraceIdx ------------------------------
(***************************************************************************)
(* Conformance of linear indices, index packs and sequence execution.      *)
(***************************************************************************)
EXTENDS Rat, TraceBase
I == INSTANCE Iter
RI(b) == << b, <<1, 1>> >>                   \* a logged big integer as a rational
RECURSIVE RLin(_, _, _, _)
RLin(idx, rg, d, acc) == IF d > Len(rg) THEN acc ELSE RLin(idx, rg, d+1, RAdd(RMul(acc, RInt(rg[d])), RInt(idx[d])))
OkBox(e) == Len(e.all) = I!Prod(e.rg) /\ \A q \in 1..Len(e.all) : RI(e.all[q]) = RInt(q - 1)
OkLi(e) == RI(e.v) = RLin(e.idx, e.rg, 1, R0)
\* sequence execution: what the function saw, how often, and what came back
RECURSIVE Weighted(_, _)
Weighted(n, k) == IF k > n THEN 0 ELSE k * (k - 1 + 5) + Weighted(n, k+1)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
ResOf(n, given) == 1000 * SumSeq(given) + Weighted(n, 1)
OkEx(e) ==
  /\ e.calls = 1 /\ e.copies = 0
  /\ e.idx = [q \in 1..e.n |-> q - 1]
  /\ e.args = e.given /\ e.seen = e.cats
  /\ e.r = ResOf(e.n, e.given)
  /\ Len(e.after) = Len(e.given)
  /\ \A q \in 1..Len(e.given) : e.cats[q] = "l" => e.after[q] = e.given[q] + 1      \* the caller's object was seen
  /\ \A q \in 1..Len(e.given) : e.cats[q] # "l" => e.after[q] = e.given[q]
OkIdx(e) == CASE e.k = "box" -> OkBox(e)
              [] e.k = "li" -> OkLi(e)
              [] e.k = "id" -> e.v = e.a
              [] e.k = "ex" -> OkEx(e)
              [] e.k = "exct" -> e.r = ResOf(e.n, e.given)
              [] e.k = "pack" -> e.got = e.p /\ e.alias = e.p
=============================================================================
