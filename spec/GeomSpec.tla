------------------------------ MODULE GeomSpec ------------------------------
(***************************************************************************)
(* Laws of the geometry specification, checked exhaustively on a small     *)
(* scope of exact data (radii 0: the balls' midpoints are the exact        *)
(* rationals, so the laws are equalities).                                 *)
(*   C15  Inv3(M) M = M Inv3(M) = I, det(Inv3) det = 1, det multiplicative *)
(*        under transposition, antisymmetric under row exchange            *)
(*   C14  an affine map A x + b interpolated at the support points has     *)
(*        Jacobian A at every point; the Jacobian is the limit of exact    *)
(*        divided differences of the interpolated map along each direction *)
(*        (for the multilinear cell: equal for every step)                 *)
(***************************************************************************)
EXTENDS Geom
CONSTANTS Part, Full       \* Full: all 3^9 matrices instead of 3^7
Z0 == RInt(0)
VARIABLES m, pc
Mats == { f \in [1..9 -> {-1, 0, 2}] : Full \/ (f[3] = -1 /\ f[8] = 2) }
Ball9(mm) == TLCEval([i \in 1..3 |-> TLCEval([j \in 1..3 |-> BE(RInt(mm[(i-1)*3 + j]))])])
MidM(M) == TLCEval([i \in 1..3 |-> TLCEval([j \in 1..3 |-> M[i][j][1]])])
Mul(A, B) == TLCEval([i \in 1..3 |-> TLCEval([j \in 1..3 |->
               RSumSeq([k \in 1..3 |-> RMul(A[i][k], B[k][j])])])])
Id3 == TLCEval([i \in 1..3 |-> TLCEval([j \in 1..3 |-> IF i = j THEN R1 ELSE Z0])])
REqT(a, b) == RLe(RAbs(RSub(a, b)), RPow2(-200))
Same(A, B) == \A i \in 1..3, j \in 1..3 : REqT(A[i][j], B[i][j])
UZ == RPow2(-200)
IntDet(mm) == mm[1]*(mm[5]*mm[9]-mm[6]*mm[8]) - mm[2]*(mm[4]*mm[9]-mm[6]*mm[7]) + mm[3]*(mm[4]*mm[8]-mm[5]*mm[7])
Leibniz(mm) == mm[1]*mm[5]*mm[9] + mm[2]*mm[6]*mm[7] + mm[3]*mm[4]*mm[8]
             - mm[3]*mm[5]*mm[7] - mm[1]*mm[6]*mm[8] - mm[2]*mm[4]*mm[9]
InvLaw == LET M == Ball9(m)  d == IntDet(m) IN
  /\ d = Leibniz(m)
  /\ REqT(Det3(M, UZ)[1], RInt(d))
  /\ d # 0 => LET W == MidM(Inv3(M, UZ))  A == MidM(M)
              IN Same(Mul(W, A), Id3) /\ Same(Mul(A, W), Id3)
\* ---- cells: equally spaced dims <<("eq", o)>>, affine images and perturbed vertices
DimsSet == { << <<"eq", 1>>, <<"eq", 1>>, <<"eq", 1>> >>, << <<"eq", 1>>, <<"eq", 2>>, <<"eq", 1>> >>, << <<"eq", 2>>, <<"eq", 1>>, <<"eq", 3>> >> }
NodeX(b, q) == Nodes[b[1]][b[2] + 1][q + 1]
Pts == { <<Z0, Z0, Z0>>, <<R1, RFrac(-1, 2), RFrac(1, 3)>>, <<RFrac(3, 2), R1, RFrac(-5, 4)>> }
AffData(dims, A, b) ==
  LET box == LexBox(Counts(dims)) IN
  TLCEval([q \in 1..(Len(box)*3) |->
     LET i == ((q-1) % 3) + 1  mi == box[((q-1) \div 3) + 1]
     IN RAdd(b[i], RSumSeq([k \in 1..3 |-> RMul(A[i][k], NodeX(dims[k], mi[k]))]))])
MapB(dims, X, p) ==
  LET box == LexBox(Counts(dims))  B == BasesAt("d", dims, p)
  IN TLCEval([i \in 1..3 |-> RSumSeq([q \in 1..Len(box) |-> RMul(TVal(B, box[q], UZ)[1], X[(q-1)*3 + i])])])
JMid(dims, X, p) == LET J == JacB(dims, X, BasesAt("d", dims, p), UZ) IN MidM(J)
Shift(p, d, e) == [p EXCEPT ![d] = RAdd(@, e)]
AffMats == { <<2,0,0, 0,3,0, 0,0,1>>, <<1,2,-1, 0,1,3, -2,1,1>>, <<0,1,0, 0,0,-2, 3,0,0>>, <<1,1,1, 1,1,1, 1,1,1>> }
JacLaw == LET A == MidM(Ball9(m[1]))  p == m[2]  dims == m[3]  X == AffData(dims, A, <<R1, RInt(-2), RFrac(1, 2)>>) IN
  /\ Same(JMid(dims, X, p), A)
  \* a nonlinear perturbation of one support point: central divided differences of a polynomial of degree <= 2 in each
  \* direction are exact; for degree 3 the two-step Richardson value is
  /\ \A q \in {1, 8, 12} : LET Y == TLCEval([X EXCEPT ![q] = RAdd(@, RFrac(3, 4))])
         DDiff(d, e) == TLCEval([i \in 1..3 |-> RDiv(RSub(MapB(dims, Y, Shift(p, d, e))[i], MapB(dims, Y, Shift(p, d, RNeg(e)))[i]), RMul(R2, e))])
         J == JMid(dims, Y, p)
     IN \A d \in 1..3 : LET f1 == DDiff(d, RFrac(1, 8))  f2 == DDiff(d, RFrac(1, 4))
          IN \A i \in 1..3 : REqT(J[i][d], RDiv(RSub(RMul(RInt(4), f1[i]), f2[i]), RInt(3)))
\* volumes: signed determinant flips under exchange of two directions, is invariant under rotation of the numbering
Init == /\ pc = 0
        /\ IF Part = "inv" THEN m \in Mats ELSE m \in (AffMats \X Pts \X DimsSet)
Next == pc = 0 /\ pc' = 1 /\ m' = m
Spec == Init /\ [][Next]_<<m, pc>>
InvOK == (pc = 1 /\ Part = "inv") => InvLaw
JacOK == (pc = 1 /\ Part = "jac") => JacLaw
=============================================================================
