-------------------------------- MODULE Poly --------------------------------
(* Univariate polynomials with rational coefficients, <<c0, c1, ...>>.     *)
EXTENDS Rat, TLC
PCoef(p, i) == IF i < Len(p) THEN p[i+1] ELSE R0
PDeg(p) == Len(p) - 1
PAdd(p, q) == [i \in 1..(IF Len(p) > Len(q) THEN Len(p) ELSE Len(q)) |-> RAdd(PCoef(p, i-1), PCoef(q, i-1))]
PScale(p, c) == [i \in 1..Len(p) |-> RMul(c, p[i])]
PShift(p) == <<R0>> \o p                                   \* times x
PMul(p, q) == [k \in 1..(Len(p) + Len(q) - 1) |->
               RSumSeq([i \in 1..Len(p) |-> IF k - i + 1 \in 1..Len(q) THEN RMul(p[i], q[k-i+1]) ELSE R0])]
PDeriv(p) == IF Len(p) <= 1 THEN <<R0>> ELSE [i \in 1..(Len(p)-1) |-> RMul(RInt(i), p[i+1])]
RECURSIVE PEvalAt(_, _, _)
PEvalAt(p, x, i) == IF i > Len(p) THEN R0 ELSE RAdd(p[i], RMul(x, PEvalAt(p, x, i+1)))
PEval(p, x) == PEvalAt(p, x, 1)
\* Legendre polynomials:  (n+1) P_{n+1} = (2n+1) x P_n - n P_{n-1}
RECURSIVE Legendre(_)
Legendre(n) == IF n = 0 THEN <<R1>> ELSE IF n = 1 THEN <<R0, R1>>
               ELSE PAdd(PScale(PShift(Legendre(n-1)), RFrac(2*n-1, n)), PScale(Legendre(n-2), RFrac(1-n, n)))
\* The root of p in [a,b], where p changes sign, to 2^-k.
RECURSIVE Bisect(_, _, _, _, _)
Bisect(p, a, b, sa, k) ==
  LET m == RMul(RFrac(1, 2), RAdd(a, b))
      s == RSgn(PEval(p, m))
  IN IF k = 0 \/ s = 0 THEN m
     ELSE IF s = sa THEN Bisect(p, m, b, sa, k-1) ELSE Bisect(p, a, m, sa, k-1)
\* All roots of a polynomial whose roots are simple and in (-1,1): they interlace with those of p'.
RECURSIVE Roots(_)
Roots(p) ==
  IF PDeg(p) = 0 THEN <<>>
  ELSE LET c == TLCEval(<<RInt(-1)>> \o Roots(PDeriv(p)) \o <<R1>>)
       IN TLCEval([i \in 1..PDeg(p) |-> Bisect(p, c[i], c[i+1], RSgn(PEval(p, c[i])), 110)])
=============================================================================
