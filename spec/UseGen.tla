------------------------------- MODULE UseGen -------------------------------
(* Every case of UseOps within the bounds, listed for the compilers (one line each). *)
EXTENDS GenBase, UseOps
CONSTANTS Big
VARIABLE todo
Shapes == {<<3>>, <<2, 3>>, <<4, 2, 3>>, <<2, 1, 3, 2>>} \cup IF Big THEN {<<1>>, <<1, 1>>, <<5, 1>>, <<1, 4>>, <<2, 2, 2, 2, 2>>, <<3, 1, 1>>} ELSE {}
Base(d, hi) == [q \in DOMAIN d |-> IF hi THEN d[q] - 1 ELSE 0]
Off(dq) == {-1, 0, dq - 1, dq, dq + 1} \cup IF Big THEN {-2, -dq, 2 * dq, 2147483647, -2147483647} ELSE {}
Tuples(d) == UNION {{[Base(d, hi) EXCEPT ![q] = v] : v \in Off(d[q])} : q \in DOMAIN d, hi \in BOOLEAN}
Own == {"own", "constown", "view", "constview", "viewconst"}
Hows == {"call", "template", "brackets", "bracket+call"}
Cases ==
  UNION {{[f |-> "index", kind |-> k, dims |-> d, ix |-> t] : k \in Own, t \in Tuples(d)} : d \in Shapes}
  \cup UNION {{[f |-> "constant", how |-> h, dims |-> d, ix |-> t] : h \in {"call", "brackets", "long call"}, t \in {x \in Tuples(d) : B!InBox(x, Len(d), d)}} : d \in Shapes}
  \cup UNION {{[f |-> "count", kind |-> k, how |-> h, dims |-> d, n |-> n] : k \in Own, h \in {"call", "template"}, n \in {Len(d) - 1, Len(d), Len(d) + 1}} : d \in Shapes}
  \cup UNION {{[f |-> "deep", kind |-> k, dims |-> d, n |-> n] : k \in Own, n \in 1..(Len(d) + 1)} : d \in Shapes}
  \cup UNION {{[f |-> "extent", dims |-> d, n |-> n] : n \in -1..(Len(d) + 1)} : d \in Shapes}
  \cup UNION {{[f |-> "list", t |-> t, dims |-> d, n |-> n] : t \in {"int", "double const"}, n \in {0, 1, 2, I!Prod(d), I!Prod(d) + 1, I!Prod(d) + 2}} : d \in Shapes}
  \cup {[f |-> "write", kind |-> k, how |-> h, dims |-> d] : k \in DOMAIN Writable, h \in Hows, d \in {s \in Shapes : Len(s) > 1}}
  \cup {[f |-> "bind", constfrom |-> a, constto |-> b, how |-> h, dims |-> d] : a \in BOOLEAN, b \in BOOLEAN, h \in {"buffer", "pointer", "own"}, d \in Shapes}
  \cup {[f |-> "data", constfrom |-> a, constto |-> b, dims |-> d] : a \in BOOLEAN, b \in BOOLEAN, d \in Shapes}
  \cup {[f |-> "binom", t |-> t, n |-> n, k |-> k] : t \in {"int", "long"}, n \in 0..5, k \in -2..7}
  \cup {[f |-> "fact", t |-> t, n |-> n] : t \in {"int", "long"}, n \in {-2, -1, 0, 1, 5, 12}}
  \cup {[f |-> "shape", shape |-> s, n |-> n, mn |-> mn, mx |-> mx, dv |-> dv] : s \in {"cube", "simplex"}, n \in {1, 3}, mn \in {-2, 0, 1}, mx \in {-2, -1, 0, 3}, dv \in {-1, 0, 1, 2}}
  \cup {[f |-> "faces", shape |-> s, n |-> n, m |-> m] : s \in {"cube", "simplex"}, n \in 0..5, m \in -1..7}
  \cup {[f |-> "volume", shape |-> s, n |-> n] : s \in {"cube", "simplex"}, n \in 0..4}
  \cup {[f |-> "quad", fam |-> fm, form |-> fo, t |-> t, n |-> n] : fm \in {"gl", "gll"}, fo \in {"ct", "rt"}, t \in {"double", "float"}, n \in 1..12}
  \cup {[f |-> "basis", on |-> o, what |-> w, d |-> d, n |-> n] : o \in {"product", "shape", "element"}, w \in {"value", "gradient"}, d \in 1..3, n \in 0..5}
  \cup {[f |-> "element", on |-> o, d |-> d, n |-> n] : o \in {"shape", "element"}, d \in 1..4, n \in 1..4}
  \cup {[f |-> "point", fam |-> fm, n |-> n] : fm \in {"gl", "gll"}, n \in {3, 4, 5}}
  \cup {[f |-> "lengths", t |-> t, n |-> n] : t \in {"double", "float"}, n \in 1..5}
  \cup UNION {{[f |-> "start", t |-> t, dims |-> d, n |-> n] : t \in {"int", "unsigned char"}, n \in 0..(Len(d) + 2)} : d \in Shapes}
Families == {c.f : c \in Cases}
\* every family has both verdicts (assertions are silent in constant expressions: only valid indices are used there)
ASSUME \A g \in Families \ {"constant"} : {WellFormed(c) : c \in {x \in Cases : x.f = g}} = BOOLEAN
Init == todo = Cases
Next == todo # {} /\ \E s \in {CHOOSE s \in todo : TRUE} : todo' = todo \ {s} /\ EmitTo(IOEnv.OUT, <<WellFormed(s), s>>)
Spec == Init /\ [][Next]_todo
=============================================================================
