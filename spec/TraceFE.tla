------------------------------ MODULE TraceFE ------------------------------
(* Conformance of spacings, quadrature rules, 1-d bases, tensor products,  *)
(* and element interpolation with module FE.                               *)
EXTENDS FE, TraceBase
K == 8     \* slack over the rounding-error bound
RF(v) == RFloat(v)
AllFinite(s) == \A i \in 1..Len(s) : IsFinite(s[i])
Near(v, x, tol) == IsFinite(v) /\ RLe(RAbs(RSub(RF(v), x)), tol)

\* ---- spacings: e.t type, e.fam, e.n, e.ct / e.rtt / e.rt node lists (compile-time constant,
\* run-time call of the compile-time form, run-time form)
IncOk(s) == \A i \in 1..(Len(s)-1) : RLt(RF(s[i]), RF(s[i+1]))
\* (equally spaced points come in any number; their positions are exact rationals)
NodeOf(e, i) == IF e.n <= MaxN(e.fam) THEN Nodes[e.fam][e.n][i] ELSE RFrac(2*(i-1) - (e.n-1), e.n-1)
TolOf(e) == IF e.n <= MaxN(e.fam) THEN NodeTolTab[e.t][e.fam][e.n] ELSE RMul(RInt(4), UTab[e.t])
NodesOk(e, s) ==
  /\ Len(s) = e.n /\ AllFinite(s) /\ IncOk(s)
  /\ \A i \in 1..e.n : Near(s[i], NodeOf(e, i), TolOf(e))
OkSp(e) ==
  /\ NodesOk(e, e.ct) /\ NodesOk(e, e.rtt) /\ NodesOk(e, e.rt)
  /\ e.np = e.n
  /\ \A i \in 1..e.n : RLe(RAbs(RSub(RF(e.ct[i]), RF(e.rt[i]))), RMul(RInt(4), UTab[e.t]))
  /\ e.fam = "eq" => Near(e.h, RFrac(2, e.n - 1), RMul(RInt(4), UTab[e.t]))
  /\ e.fam \in {"eq", "gll"} => RF(e.ct[1]) = RInt(-1) /\ Near(e.ct[e.n], R1, RMul(RInt(4), UTab[e.t]))

\* ---- quadrature: e.x nodes, e.wct, e.wrt (may be empty: no run-time form), e.xr, run-time nodes
ExactDeg(e) == IF e.fam = "gl" THEN 2*e.n - 1 ELSE 2*e.n - 3
WTol(e) == RMul(R2, NodeTolTab[e.t][e.fam][e.n])
Moment(k) == IF k % 2 = 0 THEN RFrac(2, k+1) ELSE R0
RuleOk(e, xs, w) ==
  /\ Len(w) = e.n /\ Len(xs) = e.n /\ AllFinite(w) /\ AllFinite(xs)
  /\ \A i \in 1..e.n : /\ Near(w[i], Weights[e.fam][e.n][i], WTol(e))
                       /\ RLt(R0, RF(w[i]))
                       /\ RLe(RAbs(RSub(RF(w[i]), RF(w[e.n+1-i]))), WTol(e))
  /\ \A k \in 0..ExactDeg(e) :
        RLe(RAbs(RSub(RSumSeq([i \in 1..e.n |-> RMul(RF(w[i]), RPow(RF(xs[i]), k))]), Moment(k))),
            RMul(RInt(e.n * (k + 2)), WTol(e)))
OkQd(e) == /\ RuleOk(e, e.x, e.wct) /\ RuleOk(e, e.x, e.wrtt) /\ RuleOk(e, e.xr, e.wct)
           /\ e.wrt # <<>> => /\ RuleOk(e, e.xr, e.wrt)
                              /\ \A i \in 1..e.n : RLe(RAbs(RSub(RF(e.wct[i]), RF(e.wrt[i]))), RMul(RInt(4), UTab[e.t]))

\* ---- 1-d Lagrange bases: all values e.v and gradients e.g at x (either may be empty: not observed)
OkLag(e) ==
  LET n == e.o + 1
      x == RF(e.x)
      D == Diffs(e.t, e.fam, n, x)
      u == UTab[e.t]
      F == TLCEval([j \in 1..n |-> Factors(e.t, e.fam, n, j, D)])
  IN /\ e.np = n /\ e.ord = e.o
     /\ e.v # <<>> => Len(e.v) = n /\ \A j \in 1..n : WithinT(e.v[j], ProdBut(F[j], j, j, 1, u), K, e.t)
     /\ e.g # <<>> => Len(e.g) = n /\ \A j \in 1..n : WithinT(e.g[j],
              BSum([i \in 1..(n-1) |-> LET q == IF i < j THEN i ELSE i+1
                               IN BMul(InvTab[e.t][e.fam][n][j][q], ProdBut(F[j], j, q, 1, u), u)], u), K, e.t)

\* ---- tensor products: e.dims = <<<<fam, order>>, ...>>, e.x point, e.vals = <<<<idx, value, grad>>, ...>>
B1s(e) == BasesAt(e.t, e.dims, [d \in 1..Len(e.dims) |-> RF(e.x[d])])
OkBp(e) ==
  LET B == B1s(e)  u == UTab[e.t]
      Total[d \in 0..Len(e.dims)] == IF d = 0 THEN 1 ELSE (e.dims[d][2] + 1) * Total[d-1]
  IN /\ Len(e.vals) = Total[Len(e.dims)]
     /\ \A m \in 1..Len(e.vals) :
          LET r == e.vals[m] IN
          /\ WithinT(r[2], TVal(B, r[1], u), K, e.t)
          /\ Len(r[3]) = Len(e.dims)
          /\ \A c \in 1..Len(e.dims) : WithinT(r[3][c], TGrad(B, r[1], c, u), K, e.t)
\* support counts and the support loop: lexicographic order, each point once
OkSup(e) ==
  LET ns == [d \in 1..Len(e.dims) |-> e.dims[d][2] + 1]
  IN /\ e.counts = ns /\ e.seqcounts = ns /\ e.ranges = ns /\ e.nd = Len(ns)
     /\ e.loop = LexBox(ns) /\ e.loop2 = LexBox(ns)
     /\ e.iscounts = ns /\ e.isobj = ns /\ e.isnd = Len(ns) /\ e.pend = Len(ns)
     /\ e.isv = 2 ^ Len(ns)                        \* the shapes are cubes

\* ---- interpolation: e.data in lexicographic order of support points
OkPe(e) ==
  LET B == B1s(e)  u == UTab[e.t]
      box == LexBox([d \in 1..Len(e.dims) |-> e.dims[d][2] + 1])
  IN /\ Len(e.data) = Len(box)
     /\ e.v # <<>> => WithinT(e.v, BSum([m \in 1..Len(box) |-> BMul(TVal(B, box[m], u), BE(RF(e.data[m])), u)], u), K, e.t)
     /\ e.g # <<>> => /\ Len(e.g) = Len(e.dims)
                      /\ \A c \in 1..Len(e.dims) :
                            WithinT(e.g[c], BSum([m \in 1..Len(box) |-> BMul(TGrad(B, box[m], c, u), BE(RF(e.data[m])), u)], u), K, e.t)
OkFE(e) == CASE e.k = "sp"  -> OkSp(e)
             [] e.k = "qd"  -> OkQd(e)
             [] e.k = "lag" -> OkLag(e)
             [] e.k = "bp"  -> OkBp(e)
             [] e.k = "sup" -> OkSup(e)
             [] e.k = "pe"  -> OkPe(e)
=============================================================================
