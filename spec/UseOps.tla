------------------------------- MODULE UseOps -------------------------------
(***************************************************************************)
(* Which uses of the compile-time interface are well formed.  A program    *)
(* that contains only well-formed uses compiles; a program with one        *)
(* ill-formed use does not: template arguments and constant expressions    *)
(* carry their own checks, and constness is kept by every kind of access.  *)
(* Cases are records; field f names the family.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
B == INSTANCE Bounds
I == INSTANCE Iter
\* objects: kind -> may elements be written through it?
Writable == [own |-> TRUE, constown |-> FALSE, view |-> TRUE, constview |-> FALSE, viewconst |-> FALSE,
             slice |-> TRUE, constslice |-> FALSE, sliceofconst |-> FALSE, sliceofviewconst |-> FALSE, sliceofconstview |-> FALSE]
Rank(c) == Len(c.dims)
IndexOk(c) == Len(c.ix) = Rank(c) /\ B!InBox(c.ix, Rank(c), c.dims)
Points(c) == CASE c.fam = "gl" -> 2..4 [] c.fam = "gll" /\ c.form = "ct" -> 2..9 [] c.fam = "gll" /\ c.form = "rt" -> 2..5
WellFormed(c) ==
  CASE c.f = "index"   -> IndexOk(c)                                    \* a<i,j,...>()
    [] c.f = "constant" -> IndexOk(c)                                   \* a(i,j,...), a[i][j]... in a constant expression (of a checked build)
    [] c.f = "count"   -> c.n = Rank(c)                                 \* number of indices given to a call
    [] c.f = "deep"    -> c.n <= Rank(c)                                \* number of square brackets on an array of arithmetic elements
    [] c.f = "extent"  -> c.n \in 0..(Rank(c) - 1)
    [] c.f = "list"    -> c.n <= I!Prod(c.dims)                         \* number of initialisers
    [] c.f = "write"   -> Writable[c.kind]
    [] c.f = "bind"    -> c.constto \/ ~c.constfrom                     \* a view of elements, taken from storage of (const) elements
    [] c.f = "data"    -> c.constto \/ ~c.constfrom                     \* a pointer to the elements of a (const) own array
    [] c.f = "binom"   -> 0 <= c.k /\ c.k <= c.n
    [] c.f = "fact"    -> c.n >= 0
    [] c.f = "shape"   -> c.mn < c.mx /\ c.dv > 0
    [] c.f = "faces"   -> (IF c.shape = "cube" THEN 0 ELSE -1) <= c.m /\ c.m <= c.n    \* (the empty face of a simplex)
    [] c.f = "volume"  -> c.n > 0                                       \* a point has no volume
    [] c.f = "quad"    -> c.n \in Points(c)
    [] c.f = "basis"   -> c.n = c.d                                     \* number of basis-function indices
    [] c.f = "element" -> c.n = c.d                                     \* number of bases on a d-dimensional parent cell
    [] c.f = "point"   -> c.n <= 3                                      \* quadrature indices of a point of a 3-dimensional cell
    [] c.f = "lengths" -> c.n = 3                                       \* lengths given to a Scaling cell
    [] c.f = "start"   -> c.n <= Rank(c)                                \* components given to a multi-index
=============================================================================
