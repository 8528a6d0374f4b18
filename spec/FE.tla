--------------------------------- MODULE FE ---------------------------------
(***************************************************************************)
(* Finite-element ingredients from first principles.                       *)
(*   family "eq"  equally spaced   "gl" Gauss-Legendre   "gll" Lobatto     *)
(***************************************************************************)
EXTENDS Ball, Poly, TLC
Fams == {"eq", "gl", "gll"}
MaxN(fam) == CASE fam = "gl" -> 4 [] fam = "gll" -> 9 [] fam = "eq" -> 21
EqNodes(n) == [i \in 1..n |-> RFrac(2*(i-1) - (n-1), n-1)]
GlNodes(n) == Roots(Legendre(n))
GllNodes(n) == <<RInt(-1)>> \o Roots(PDeriv(Legendre(n-1))) \o <<R1>>
NodesOf(dummy) == TLCEval([eq  |-> TLCEval([n \in 2..21 |-> TLCEval(EqNodes(n))]),
                  gl  |-> TLCEval([n \in 2..4 |-> TLCEval(GlNodes(n))]),
                  gll |-> TLCEval([n \in 2..9 |-> TLCEval(GllNodes(n))])])
\* Quadrature weights by the classical formulas (their exactness is checked in FESpec).
GlWeight(n, x) == LET d == PEval(PDeriv(Legendre(n)), x) IN RDiv(R2, RMul(RSub(R1, RMul(x, x)), RMul(d, d)))
GllWeight(n, x) == LET v == PEval(Legendre(n-1), x) IN RDiv(R2, RMul(RInt(n*(n-1)), RMul(v, v)))
Nodes == TLCGet(11)
WeightsOf(dummy) == TLCEval([gl  |-> TLCEval([n \in 2..4 |-> TLCEval([i \in 1..n |-> Mid(GlWeight(n, Nodes.gl[n][i]))])]),
                    gll |-> TLCEval([n \in 2..9 |-> TLCEval([i \in 1..n |-> Mid(GllWeight(n, Nodes.gll[n][i]))])])])
Weights == TLCGet(12)
\* How precisely the library states its nodes and weights: to the floating-point type, except the
\* Lobatto tables with 6 or more points, which carry 13 or more decimals.
Table13 == RDiv(RInt(5), RPow(RInt(10), 14))
NodeTol(fam, n, t) == LET e == RMul(RInt(4), UTab[t]) IN IF fam = "gll" /\ n >= 6 THEN RAdd(e, Table13) ELSE e
NodeTolTab == TLCEval([t \in {"d","f"} |-> TLCEval([fam \in Fams |-> TLCEval([n \in 2..MaxN(fam) |-> RUp(NodeTol(fam, n, t))])])])

\* 1/(x_j - x_k) as a ball: nodes each known to NodeTol
InvTabOf(dummy) == TLCEval([t \in {"d","f"} |-> TLCEval([fam \in Fams |-> TLCEval([n \in 2..MaxN(fam) |->
            TLCEval([j \in 1..n |-> TLCEval([k \in 1..n |->
            IF j = k THEN BE(R0)
            ELSE BInv(<<RSub(Nodes[fam][n][j], Nodes[fam][n][k]), RMul(R2, NodeTolTab[t][fam][n])>>, UTab[t])])])])])])
InvTab == TLCGet(14)
ASSUME TLCSet(11, NodesOf(0)) /\ TLCSet(12, WeightsOf(0)) /\ TLCSet(14, InvTabOf(0))
\* factor (x - x_k)/(x_j - x_k)
Diffs(t, fam, n, x) == TLCEval([k \in 1..n |-> BRnd(RSub(x, Nodes[fam][n][k]), NodeTolTab[t][fam][n], UTab[t])])
Factors(t, fam, n, j, D) == TLCEval([k \in 1..n |-> IF k = j THEN BE(R1) ELSE BMul(D[k], InvTab[t][fam][n][j][k], UTab[t])])
RECURSIVE ProdBut(_, _, _, _, _)
ProdBut(F, j, i, k, u) ==   \* product of F[k..] except positions j and i
  IF k > Len(F) THEN BE(R1)
  ELSE IF k = j \/ k = i THEN ProdBut(F, j, i, k+1, u)
  ELSE BMul(F[k], ProdBut(F, j, i, k+1, u), u)
LagValD(t, fam, n, j, D) == LET F == Factors(t, fam, n, j, D) IN ProdBut(F, j, j, 1, UTab[t])
LagGradD(t, fam, n, j, D) ==
  LET F == Factors(t, fam, n, j, D)  u == UTab[t]
  IN BSum([i \in 1..(n-1) |-> LET q == IF i < j THEN i ELSE i+1
                               IN BMul(InvTab[t][fam][n][j][q], ProdBut(F, j, q, 1, u), u)], u)
\* the same at a point known only to within tol (a quadrature node)
DiffsTol(t, fam, n, x, tol) == TLCEval([k \in 1..n |-> BRnd(RSub(x, Nodes[fam][n][k]), RAdd(tol, NodeTolTab[t][fam][n]), UTab[t])])
\* all basis functions of one direction at x: sequence of <<value, gradient>> balls
BasisD(t, fam, n, D) == TLCEval([j \in 1..n |-> TLCEval(<<LagValD(t, fam, n, j, D), LagGradD(t, fam, n, j, D)>>)])
Basis1(t, fam, n, x) == BasisD(t, fam, n, Diffs(t, fam, n, x))
\* ---- tensor products; dims = <<<<fam, order>>, ...>>, one per direction
BasesAt(t, dims, xs) == TLCEval([d \in 1..Len(dims) |-> Basis1(t, dims[d][1], dims[d][2] + 1, xs[d])])
TVal(B, idx, u) == BProd([d \in 1..Len(idx) |-> B[d][idx[d]+1][1]], u)
TGrad(B, idx, c, u) == BProd([d \in 1..Len(idx) |-> B[d][idx[d]+1][IF d = c THEN 2 ELSE 1]], u)
\* all index tuples of a box in lexicographic order (last index fastest)
RECURSIVE LexBox(_)
LexBox(ns) == IF ns = <<>> THEN << <<>> >>
              ELSE LET rest == LexBox(Tail(ns))  m == Len(rest)
                   IN TLCEval([q \in 1..(Head(ns) * m) |-> <<(q-1) \div m>> \o rest[((q-1) % m) + 1]])
Counts(dims) == [d \in 1..Len(dims) |-> dims[d][2] + 1]
=============================================================================
