------------------------------- MODULE FESpec -------------------------------
(***************************************************************************)
(* The finite-element oracle (module FE) as a system of its own: every     *)
(* rule, basis and evaluation point is an initial state and the laws that  *)
(* make the ingredients what their names say are its invariants.           *)
(***************************************************************************)
EXTENDS FE
VARIABLE c
Eps == RPow2(-90)
Same(x, y) == RLe(RAbs(RSub(x, y)), Eps)
Moment(k) == IF k % 2 = 0 THEN RFrac(2, k+1) ELSE R0
Deg(fam, n) == IF fam = "gl" THEN 2*n - 1 ELSE 2*n - 3
Pts == {<<0, 1>>, <<1, 1>>, <<-1, 1>>, <<3, 7>>, <<-5, 8>>, <<5, 4>>, <<-9, 5>>, <<1, 1000>>}
FamN == {<<f, n>> \in Fams \X (2..13) : n <= MaxN(f)}

\* ---- spacings
InitSp == c \in [fn : FamN, i : 1..13]
NodeLaw ==
  LET f == c.fn[1]  n == c.fn[2]  X == Nodes[f][n] IN
  c.i <= n =>
    /\ Len(X) = n
    /\ c.i < n => RLt(X[c.i], X[c.i + 1])
    /\ Same(X[c.i], RNeg(X[n + 1 - c.i]))
    /\ RLe(RAbs(X[c.i]), R1)
    /\ f = "gl" => Same(PEval(Legendre(n), X[c.i]), R0)
    /\ f = "gll" => Same(RMul(RSub(R1, RMul(X[c.i], X[c.i])), PEval(PDeriv(Legendre(n-1)), X[c.i])), R0)
    /\ f = "eq" => X[c.i] = RFrac(2*(c.i - 1) - (n - 1), n - 1)
\* ---- quadrature
InitQd == c \in [fn : {q \in FamN : q[1] # "eq"}, k : 0..18]
MomentOf(f, n, k) == RSumSeq([i \in 1..n |-> RMul(Weights[f][n][i], RPow(Nodes[f][n][i], k))])
QuadLaw ==
  LET f == c.fn[1]  n == c.fn[2] IN
  /\ c.k <= Deg(f, n) => RLe(RAbs(RSub(MomentOf(f, n, c.k), Moment(c.k))), RPow2(-80))
  /\ c.k = Deg(f, n) + 1 => ~RLe(RAbs(RSub(MomentOf(f, n, c.k), Moment(c.k))), RPow2(-30))   \* and no further
  /\ \A i \in 1..n : RLt(R0, Weights[f][n][i])
\* ---- bases
InitLag == c \in [fn : FamN, x : Pts, t : {"d", "f"}]
X0 == RFrac(c.x[1], c.x[2])
LagLaw ==
  LET f == c.fn[1]  n == c.fn[2]  X == Nodes[f][n]
      B == Basis1(c.t, f, n, X0)
  IN /\ \A k \in 0..(n-1) :
          /\ RLe(RAbs(RSub(RSumSeq([j \in 1..n |-> RMul(B[j][1][1], RPow(X[j], k))]), RPow(X0, k))), RPow2(-70))
          /\ RLe(RAbs(RSub(RSumSeq([j \in 1..n |-> RMul(B[j][2][1], RPow(X[j], k))]),
                           IF k = 0 THEN R0 ELSE RMul(RInt(k), RPow(X0, k - 1)))), RPow2(-60))
     \* the judgement is sharp: rounding bounds are small against the values
     /\ \A j \in 1..n : /\ RLt(B[j][1][2], RMul(RPow2(IF c.t = "d" THEN -36 ELSE -9), RAdd(R1, RAbs(B[j][1][1]))))
\* cardinality at the nodes
InitCard == c \in [fn : FamN, i : 1..13]
CardLaw ==
  LET f == c.fn[1]  n == c.fn[2] IN
  c.i <= n => LET B == Basis1("d", f, n, Nodes[f][n][c.i]) IN
              \A j \in 1..n : Same(B[j][1][1], IF j = c.i THEN R1 ELSE R0)
\* ---- tensor products and interpolation: every monomial x^p y^q of the element's order is reproduced
InitTen == c \in [fx : {q \in FamN : q[2] \in 2..4}, fy : {q \in FamN : q[2] \in 2..3}, p : 0..3, q : 0..2]
TenLaw ==
  LET TX == Basis1("d", c.fx[1], c.fx[2], RFrac(3, 7))
      TY == Basis1("d", c.fy[1], c.fy[2], RFrac(-2, 5))
      S(gx, gy) == RSumSeq([m \in 1..(c.fx[2] * c.fy[2]) |->
                     LET a == ((m-1) \div c.fy[2]) + 1   b == ((m-1) % c.fy[2]) + 1
                     IN RMul(RMul(TX[a][gx][1], TY[b][gy][1]),
                             RMul(RPow(Nodes[c.fx[1]][c.fx[2]][a], c.p), RPow(Nodes[c.fy[1]][c.fy[2]][b], c.q)))])
      Dm(x, k) == IF k = 0 THEN R0 ELSE RMul(RInt(k), RPow(x, k-1))
      Eq(x, y) == RLe(RAbs(RSub(x, y)), RPow2(-70))
  IN (c.p < c.fx[2] /\ c.q < c.fy[2]) =>
        /\ Eq(S(1, 1), RMul(RPow(RFrac(3, 7), c.p), RPow(RFrac(-2, 5), c.q)))
        /\ Eq(S(2, 1), RMul(Dm(RFrac(3, 7), c.p), RPow(RFrac(-2, 5), c.q)))
        /\ Eq(S(1, 2), RMul(RPow(RFrac(3, 7), c.p), Dm(RFrac(-2, 5), c.q)))
Next == FALSE /\ c' = c
=============================================================================
