-------------------------------- MODULE Int ---------------------------------
(***************************************************************************)
(* Element integrals assembled from the parts: rule x basis x cell.        *)
(*   what: "vol"   the cell's signed volume                                *)
(*         "mass"  integral of N_m N_n                                     *)
(*         "grad"  integral of (dN_m/dx_i) N_n                             *)
(*         "stiff" integral of grad N_m . grad N_n                         *)
(*         "mom"   integral of the interpolant of nodal data               *)
(* The ball of an integral: its midpoint is the quadrature sum with exact  *)
(* nodes and weights, hence (within the rule's degree, see IntSpec) the    *)
(* exact integral; its radius bounds the rounding of the assembly.         *)
(***************************************************************************)
EXTENDS Geom
RuleDeg(rule) == IF rule[1] = "gl" THEN 2*rule[2] - 1 ELSE 2*rule[2] - 3
\* degree of the integrand in direction k
CellDeg(kind, aff, dims, k) == IF kind = "lin" /\ ~aff THEN 3*dims[k][2] - 1 ELSE 0
NeedDeg(e, k) ==
  LET p == IF e.what = "vol" THEN 0 ELSE e.el[k][2] IN
  CASE e.what = "vol"   -> CellDeg(e.kind, e.aff, e.dims, k)
    [] e.what = "mass"  -> 2*p + CellDeg(e.kind, e.aff, e.dims, k)
    [] e.what = "mom"   -> p + CellDeg(e.kind, e.aff, e.dims, k)
    [] e.what = "grad"  -> 2*p + (IF e.kind = "lin" /\ ~e.aff THEN 2*e.dims[k][2] - 1 ELSE 0)
    [] e.what = "stiff" -> IF e.kind = "lin" /\ ~e.aff THEN 99 ELSE 2*p
Exactly(e) == \A k \in 1..3 : NeedDeg(e, k) <= RuleDeg(e.rule)
\* bases of one direction at every quadrature node
AtNodes(t, rule, b) ==
  TLCEval([q \in 1..rule[2] |-> BasisD(t, b[1], b[2] + 1,
     DiffsTol(t, b[1], b[2] + 1, Nodes[rule[1]][rule[2]][q], NodeTolTab[t][rule[1]][rule[2]]))])
TabOf(t, rule, dims) == TLCEval([d \in 1..Len(dims) |-> AtNodes(t, rule, dims[d])])
PickAt(tab, q) == << tab[1][q[1]], tab[2][q[2]], tab[3][q[3]] >>
WBall(t, rule, q) == <<Weights[rule[1]][rule[2]][q], RMul(R2, NodeTolTab[t][rule[1]][rule[2]])>>
QPoints(n) == LexBox(<<n, n, n>>)
\* Jacobian (3x3 of balls) and determinant of the cell at a quadrature point
ScalJ(kind, X, u) == TLCEval([i \in 1..3 |-> TLCEval([j \in 1..3 |->
                        IF i = j THEN BMul(BE(Half), BE(X[IF kind = "unif" THEN 1 ELSE i]), u) ELSE BE(R0)])])
CellAt(e, X, gtab, q, u) ==
  LET J == TLCEval(IF e.kind = "lin" THEN JacB(e.dims, X, PickAt(gtab, q), u) ELSE ScalJ(e.kind, X, u))
  IN [J |-> J, D |-> TLCEval(Det3(J, u))]
Phys(V, B, m, i, u) == BSum([k \in 1..3 |-> BMul(V[k][i], TGrad(B, m, k, u), u)], u)
\* the cells at all quadrature points:  <<w, D, V (if needed), B (if needed)>>
NeedsInv(what) == what \in {"grad", "stiff"}
PointsOf(e, X, u) ==
  LET gtab == IF e.kind = "lin" THEN TabOf(e.t, e.rule, e.dims) ELSE <<>>
      etab == IF e.what = "vol" THEN <<>> ELSE TabOf(e.t, e.rule, e.el)
      box == QPoints(e.rule[2])
      c0 == IF e.kind = "lin" THEN 0 ELSE CellAt(e, X, gtab, <<1, 1, 1>>, u)
  IN TLCEval([p \in 1..Len(box) |->
       LET q == <<box[p][1] + 1, box[p][2] + 1, box[p][3] + 1>>
           c == IF e.kind = "lin" THEN CellAt(e, X, gtab, q, u) ELSE c0
           w == BProd([d \in 1..3 |-> WBall(e.t, e.rule, q[d])], u)
       IN TLCEval([wD |-> BMul(w, c.D, u),
                   ok |-> BOk(c.D),
                   V |-> IF NeedsInv(e.what) /\ BOk(c.D) THEN Inv3(c.J, u) ELSE <<>>,
                   B |-> IF e.what = "vol" THEN <<>> ELSE PickAt(etab, q)])])
Integrand(e, P, m, n, i, nod, u) ==
  CASE e.what = "vol"   -> BE(R1)
    [] e.what = "mass"  -> BMul(TVal(P.B, m, u), TVal(P.B, n, u), u)
    [] e.what = "grad"  -> BMul(Phys(P.V, P.B, m, i, u), TVal(P.B, n, u), u)
    [] e.what = "stiff" -> BSum([k \in 1..3 |-> BMul(Phys(P.V, P.B, m, k, u), Phys(P.V, P.B, n, k, u), u)], u)
    [] e.what = "mom"   -> LET box == LexBox(Counts(e.el)) IN BSum([a \in 1..Len(box) |-> BMul(TVal(P.B, box[a], u), BE(nod[a]), u)], u)
Integral(e, pts, m, n, i, nod, u) == BSum([p \in 1..Len(pts) |-> BMul(pts[p].wD, Integrand(e, pts[p], m, n, i, nod, u), u)], u)
=============================================================================
