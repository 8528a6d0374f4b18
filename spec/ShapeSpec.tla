----------------------------- MODULE ShapeSpec ------------------------------
(***************************************************************************)
(* Faces built explicitly, one coordinate (vertex) per step: the reachable *)
(* states are exactly the faces, and their number is the closed count the  *)
(* traces are judged with.                                                 *)
(***************************************************************************)
EXTENDS Shape, TLC
CONSTANT NMax
VARIABLES shape, n, face         \* face: word over {0,1,2}; 2 = free (cube) / 1 = vertex used (simplex)
vars == <<shape, n, face>>
Letters == IF shape = "cube" THEN {0, 1, 2} ELSE {0, 1}
Full == IF shape = "cube" THEN n ELSE n + 1
Init == shape \in {"cube", "simplex"} /\ n \in 0..NMax /\ face = <<>>
Next == /\ Len(face) < Full
        /\ \E c \in Letters : face' = Append(face, c)
        /\ UNCHANGED <<shape, n>>
Spec == Init /\ [][Next]_vars
\* every word is one face; the numbers by dimension are those of the recurrences
Words(s, k) == IF s = "cube" THEN [1..k -> {0,1,2}] ELSE [1..(k+1) -> {0,1}]
Free(s) == IF s = "cube" THEN 2 ELSE 1
CountLaw ==
  face = <<>> =>
    \A m \in 0..n :
       /\ Faces(shape, n, m) =
            Cardinality({w \in Words(shape, n) : Cardinality({i \in DOMAIN w : w[i] = Free(shape)}) = IF shape = "cube" THEN m ELSE m + 1})
       /\ shape = "simplex" => RInt(Faces(shape, n, m)) = RBinom(n+1, m+1)
       \* Euler characteristic
       /\ LET E[q \in 0..n] == (IF q = 0 THEN 0 ELSE E[q-1]) + (IF q % 2 = 0 THEN 1 ELSE -1) * Faces(shape, n, q)
          IN E[n] = 1
       /\ (shape = "cube" /\ m < n) => Faces(shape, n, n-1) = 2*n
       \* a unit cube is the union of n! simplices of its edge length
       /\ RMul(Volume("simplex", n, -3, 4, 2), RFact(n)) = Volume("cube", n, -3, 4, 2)
TypeOK == Len(face) <= Full
=============================================================================
