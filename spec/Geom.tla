-------------------------------- MODULE Geom --------------------------------
(***************************************************************************)
(* Cells mapped from the reference cube: the interpolated map's Jacobian,  *)
(* its inverse and determinant, and the scaling cells.  A cell's data is   *)
(* the sequence of its numbers in storage order (support indices           *)
(* lexicographic, coordinate component fastest).                           *)
(***************************************************************************)
EXTENDS FE
\* position of support point idx of a box ns in a list with the first index fastest
RECURSIVE FirstFast(_, _)
FirstFast(idx, ns) == IF idx = <<>> THEN 0 ELSE Head(idx) + Head(ns) * FirstFast(Tail(idx), Tail(ns))
\* data after setting from a coordinate list
SetFromList(dims, list) ==
  LET box == LexBox(Counts(dims))  D == Len(dims)  ns == Counts(dims)
  IN TLCEval([q \in 1..(Len(box) * D) |-> list[FirstFast(box[((q-1) \div D) + 1], ns) + 1][((q-1) % D) + 1]])
Det2(M, u) == BSub(BMul(M[1][1], M[2][2], u), BMul(M[1][2], M[2][1], u), u)
Minor(M, i, j) == LET r == <<2, 1, 1>>[i]  s == <<3, 3, 2>>[i]  p == <<2, 1, 1>>[j]  q == <<3, 3, 2>>[j]
                  IN << <<M[r][p], M[r][q]>>, <<M[s][p], M[s][q]>> >>
Cof(M, i, j, u) == LET d == Det2(Minor(M, i, j), u) IN IF (i + j) % 2 = 0 THEN d ELSE BNeg(d)
Det3(M, u) == BSum([i \in 1..3 |-> BMul(M[i][1], Cof(M, i, 1, u), u)], u)
Inv3(M, u) == LET k == BInv(Det3(M, u), u) IN TLCEval([i \in 1..3 |-> TLCEval([j \in 1..3 |-> BMul(Cof(M, j, i, u), k, u)])])
\* Jacobian of the interpolated map: X exact data, B the bases at the point
JacB(dims, X, B, u) ==
  LET box == LexBox(Counts(dims))  D == Len(dims)
      G == TLCEval([m \in 1..Len(box) |-> TLCEval([j \in 1..D |-> TGrad(B, box[m], j, u)])])
  IN TLCEval([i \in 1..D |-> TLCEval([j \in 1..D |->
       BSum([m \in 1..Len(box) |-> BMul(G[m][j], BE(X[(m-1)*D + i]), u)], u)])])
Half == RFrac(1, 2)
=============================================================================
