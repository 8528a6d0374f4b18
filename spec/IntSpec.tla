------------------------------ MODULE IntSpec -------------------------------
(***************************************************************************)
(* Laws of the element-integral specification on a small scope of cells    *)
(* (a cube and a sheared box, one vertex moved in one component):          *)
(*  - the quadrature sums of sufficiently exact rules are the exact        *)
(*    integral, computed independently by exact tensor integration;        *)
(*  - renumbering the vertices by a rotation of the cube leaves the volume *)
(*    unchanged, by a reflection flips its sign;                           *)
(*  - mass entries sum to the volume, gradients of the basis sum to zero.  *)
(***************************************************************************)
EXTENDS Int
VARIABLES c, pc
Q1 == << <<"eq", 1>>, <<"eq", 1>>, <<"eq", 1>> >>
Phi(a) == IF a = 0 THEN <<RFrac(1, 2), RFrac(-1, 2)>> ELSE <<RFrac(1, 2), RFrac(1, 2)>>
Der(p, s) == IF s THEN PDeriv(p) ELSE p
IntPoly(p) == RSumSeq([k \in 1..Len(p) |-> IF k % 2 = 1 THEN RMul(p[k], RFrac(2, k)) ELSE R0])
\* integral over [-1,1] of phi_a phi_b phi_c with the w-th factor (1..3) differentiated
T1Of(d) == TLCEval([a \in 0..1 |-> TLCEval([b \in 0..1 |-> TLCEval([g \in 0..1 |-> TLCEval([w \in 1..3 |->
           IntPoly(PMul(PMul(Der(Phi(a), w = 1), Der(Phi(b), w = 2)), Der(Phi(g), w = 3)))])])])])
ASSUME TLCSet(15, T1Of(0))
T1 == TLCGet(15)
Perms == << <<1,2,3,1>>, <<2,3,1,1>>, <<3,1,2,1>>, <<1,3,2,-1>>, <<2,1,3,-1>>, <<3,2,1,-1>> >>
\* inverse position: which of (x,y,z) carries the derivative in direction d
Carrier(p, d) == CHOOSE w \in 1..3 : p[w] = d
Box8 == LexBox(<<2, 2, 2>>)
TermOf(a, b, g, p) == RMul(RInt(p[4]), RMul(T1[a[1]][b[1]][g[1]][Carrier(p, 1)],
                      RMul(T1[a[2]][b[2]][g[2]][Carrier(p, 2)], T1[a[3]][b[3]][g[3]][Carrier(p, 3)])))
CoefOf(d) == TLCEval([a \in 1..8 |-> TLCEval([b \in 1..8 |-> TLCEval([g \in 1..8 |->
             RSumSeq([q \in 1..6 |-> TermOf(Box8[a], Box8[b], Box8[g], Perms[q])])])])])
ASSUME TLCSet(16, CoefOf(0))
Coef == TLCGet(16)
ExactVol(X) == RSumSeq([a \in 1..8 |-> RMul(X[(a-1)*3 + 1], RSumSeq([b \in 1..8 |-> RMul(X[(b-1)*3 + 2],
                 RSumSeq([g \in 1..8 |-> RMul(Coef[a][b][g], X[(g-1)*3 + 3])]))]))])
\* ---- the cells
BaseM == << <<1,0,0, 0,1,0, 0,0,1>>, <<2,1,0, -1,3,1, 0,1,-2>> >>
CellX(b, v, i, dl) ==
  TLCEval([q \in 1..24 |-> LET n == ((q-1) \div 3) + 1  k == ((q-1) % 3) + 1  P == Box8[n]
     IN RAdd(RInt(BaseM[b][(k-1)*3+1]*(2*P[1]-1) + BaseM[b][(k-1)*3+2]*(2*P[2]-1) + BaseM[b][(k-1)*3+3]*(2*P[3]-1)),
             IF n = v /\ k = i THEN RFrac(dl, 4) ELSE R0)])
\* vertex permutations (on lexicographic positions): quarter turns about two axes and a reflection
Turn(P, s) == CASE s = 1 -> <<1 - P[2], P[1], P[3]>> [] s = 2 -> <<P[1], 1 - P[3], P[2]>> [] s = 3 -> <<1 - P[1], P[2], P[3]>>
                [] s = 4 -> <<P[2], P[3], P[1]>> [] s = 5 -> <<P[2], P[1], P[3]>>
Sgn(s) == IF s \in {3, 5} THEN -1 ELSE 1
Renum(X, s) == TLCEval([q \in 1..24 |-> LET n == ((q-1) \div 3) + 1  k == ((q-1) % 3) + 1  P == Turn(Box8[n], s)
                IN X[(4*P[1] + 2*P[2] + P[3])*3 + k]])
UZ == RPow2(-100)
Ev(what, rule, el) == [t |-> "d", kind |-> "lin", aff |-> FALSE, dims |-> Q1, what |-> what, rule |-> rule, el |-> el]
Vol(X, rule) == LET e == Ev("vol", rule, Q1) IN Integral(e, PointsOf(e, X, UZ), <<>>, <<>>, 0, <<>>, UZ)[1]
Eq(x, y) == RLe(RAbs(RSub(x, y)), RPow2(-75))
Init == pc = 0 /\ c \in [b : 1..2, v : 1..8, i : 1..3, dl : {-2, 3}, s : 1..5]
Next == pc = 0 /\ pc' = 1 /\ c' = c
Spec == Init /\ [][Next]_<<c, pc>>
Laws == pc = 1 =>
  LET X == CellX(c.b, c.v, c.i, c.dl)  V == ExactVol(X)  Y == Renum(X, c.s) IN
  /\ Eq(ExactVol(Y), IF Sgn(c.s) = 1 THEN V ELSE RNeg(V))
  /\ Eq(Vol(X, <<"gl", 2>>), V) /\ Eq(Vol(Y, <<"gl", 2>>), ExactVol(Y))
  /\ c.s = 1 => /\ Eq(Vol(X, <<"gll", 3>>), V) /\ Eq(Vol(X, <<"gl", 3>>), V)
                /\ LET e == Ev("mass", <<"gll", 4>>, Q1)  pts == PointsOf(e, X, UZ)  n == Box8[c.v] IN
                   Eq(RSumSeq([a \in 1..8 |-> Integral(e, pts, Box8[a], n, 0, <<>>, UZ)[1]]),
                      LET em == Ev("mom", <<"gll", 4>>, Q1) IN Integral(em, pts, <<>>, <<>>, 0, [a \in 1..8 |-> IF a = c.v THEN R1 ELSE R0], UZ)[1])
                /\ LET e == Ev("grad", <<"gl", 2>>, Q1)  pts == PointsOf(e, X, UZ)  n == Box8[c.v] IN
                   Eq(RSumSeq([a \in 1..8 |-> Integral(e, pts, Box8[a], n, c.i, <<>>, UZ)[1]]), R0)
=============================================================================
