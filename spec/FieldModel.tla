----------------------------- MODULE FieldModel -----------------------------
(***************************************************************************)
(* All short behaviours of the field machine on a 2 x 2 bilinear element,  *)
(* with the laws of interpolation as invariants of every reachable state:  *)
(* nodal values are met, constants have no gradient, the interpolant stays *)
(* between the extreme data inside the element, evaluation is linear in    *)
(* the data, and evaluations change nothing.                               *)
(***************************************************************************)
EXTENDS FieldOps, FiniteSets
CONSTANTS MaxLen
Vals == {-8, 0, 24}
Coords == {-16, 0, 5, 16, 20}
VARIABLES s, n
Dims == << <<"eq", 1>>, <<"gll", 1>> >>
Start == [f |-> << <<-8, 24, 0, 5>>, <<1, 1, 2, -7>> >>, p |-> << <<5, -16>> >>]
Init == s \in {FieldInit(2, 1, 4, 2), Start} /\ n = 0
Ops == [o : {"set"}, a : 1..2, q : 1..4, v : Vals] \cup [o : {"fill", "ramp"}, a : 1..2, v : Vals]
       \cup {[o |-> "copy", a |-> 1, b |-> 2], [o |-> "swap", a |-> 1, b |-> 2]}
       \cup [o : {"at"}, a : {1}, q : 1..2, v : Coords]
       \cup [o : {"val", "grad", "both"}, a : 1..2, b : {1}]
Next == n < MaxLen /\ \E op \in Ops : s' = FieldApply(s, op) /\ n' = n + 1
Eps == RPow2(-80)
Same(x, y) == RLe(RAbs(RSub(x, y)), Eps)
V(st, a) == ValueB("d", Dims, st, a, 1)[1]
G(st, a, c) == GradB("d", Dims, st, a, 1, c)[1]
Corner(k) == <<IF k <= 2 THEN -16 ELSE 16, IF k % 2 = 1 THEN -16 ELSE 16>>
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : y >= x
RangeOf(f) == {f[i] : i \in DOMAIN f}
Nodal == \A k \in 1..4 : s.p[1] = Corner(k) => Same(V(s, 1), VOf(s, 1, k))
Constant == Cardinality(RangeOf(s.f[1])) = 1 => Same(V(s, 1), VOf(s, 1, 1)) /\ Same(G(s, 1, 1), R0) /\ Same(G(s, 1, 2), R0)
Between == (\A d \in 1..2 : s.p[1][d] \in -16..16) =>
              /\ RLe(V(s, 1), RAdd(Eps, RFrac(SetMax(RangeOf(s.f[1])), 8)))
              /\ RLe(RSub(RFrac(SetMin(RangeOf(s.f[1])), 8), Eps), V(s, 1))
Linear == LET t == [s EXCEPT !.f[1] = [q \in 1..4 |-> 2 * s.f[1][q] - 3 * s.f[2][q]]]
              L(x, y) == RSub(RMul(R2, x), RMul(RInt(3), y))
          IN /\ Same(V(t, 1), L(V(s, 1), V(s, 2)))
             /\ \A c \in 1..2 : Same(G(t, 1, c), L(G(s, 1, c), G(s, 2, c)))
Bilinear == \* second differences along each direction vanish
   LET e(d, x) == V([s EXCEPT !.p[1] = [@ EXCEPT ![d] = x]], 1) IN
   \A d \in 1..2 : Same(RAdd(e(d, -16), e(d, 16)), RMul(R2, e(d, 0)))
                   /\ Same(G(s, 1, d), RMul(RFrac(1, 2), RSub(e(d, 16), e(d, -16))))
Laws == Nodal /\ Constant /\ Between /\ Linear /\ Bilinear
=============================================================================
