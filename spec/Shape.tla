------------------------------- MODULE Shape --------------------------------
(***************************************************************************)
(* Faces of cubes and simplices, counted by building them, and exact       *)
(* integer arithmetic on big integers (<<sign, limbs>> as in RatPure, here *)
(* used through rationals with denominator one).                           *)
(***************************************************************************)
EXTENDS Ball, FiniteSets
\* A face of the n-cube fixes each coordinate at its minimum or maximum or leaves it free.
RECURSIVE CubeFaces(_, _)
CubeFaces(n, m) == IF m < 0 \/ m > n THEN 0 ELSE IF n = 0 THEN 1
                   ELSE 2 * CubeFaces(n-1, m) + CubeFaces(n-1, m-1)
\* A face of the n-simplex is a non-empty set of m+1 of its n+1 vertices.
RECURSIVE Choose(_, _)
Choose(n, k) == IF k < 0 \/ k > n THEN 0 ELSE IF n = 0 THEN 1 ELSE Choose(n-1, k) + Choose(n-1, k-1)
SimplexFaces(n, m) == Choose(n+1, m+1)
Faces(shape, n, m) == IF shape = "cube" THEN CubeFaces(n, m) ELSE SimplexFaces(n, m)
\* Measures
RECURSIVE RFact(_)
RFact(n) == IF n = 0 THEN R1 ELSE RMul(RInt(n), RFact(n-1))
RBinom(n, k) == RDiv(RFact(n), RMul(RFact(k), RFact(n-k)))
MinC(mn, dv) == RFrac(mn, dv)
Length(mn, mx, dv) == RDiv(RSub(RInt(mx), RInt(mn)), RInt(dv))
Volume(shape, n, mn, mx, dv) == IF shape = "cube" THEN RPow(Length(mn, mx, dv), n)
                                ELSE RDiv(RPow(Length(mn, mx, dv), n), RFact(n))
=============================================================================
