----------------------------- MODULE TraceShape -----------------------------
(* Conformance of shape counts, measures and compile-time integer math.    *)
EXTENDS Shape, TraceBase
RI(b) == << b, <<1, 1>> >>                   \* a logged big integer as a rational
OkFaces(e) ==
  LET F(m) == Faces(e.shape, e.n, m) IN
  /\ e.nd = e.n
  /\ Len(e.m) = e.n + 1 /\ \A m \in 0..e.n : e.m[m+1] = F(m)
  /\ Len(e.mrt) = e.n + 1 /\ \A m \in 0..e.n : e.mrt[m+1] = F(m)
  /\ e.v = F(0) /\ e.e = F(1) /\ e.f = F(2) /\ e.c = F(3) /\ e.h = F(e.n - 1)
\* a shape by its name: the dimension of its coordinates and its counts
OkAlias(e) ==
  LET F(m) == Faces(e.shape, e.n, m) IN
  e.nd = e.n /\ e.cd = e.n /\ e.v = F(0) /\ e.e = F(1) /\ e.f = F(2) /\ e.c = F(3)
Rel(v, x, t, k) == IsFinite(v) /\ RLe(RAbs(RSub(RFloat(v), x)), RMul(RMul(RInt(k), UTab[t]), RAbs(x)))
OkMeas(e) ==
  /\ Rel(e.minc, RFrac(e.mn, e.dv), e.t, 6)
  /\ Rel(e.maxc, RFrac(e.mx, e.dv), e.t, 6)
  /\ Rel(e.len, Length(e.mn, e.mx, e.dv), e.t, 6)
  /\ Rel(e.vol, Volume(e.shape, e.n, e.mn, e.mx, e.dv), e.t, 8 * (e.n + 1))
\* exact integer results
OkPow(e)  == RI(e.r) = RPow(RI(e.b), e.e)
OkPowF(e) == /\ IsFinite(e.r)
             /\ RLe(RAbs(RSub(RFloat(e.r), RPow(RFloat(e.b), e.e))),
                    RMul(RMul(RInt(4 * (e.e + 1)), UTab[e.t]), RAbs(RPow(RFloat(e.b), e.e))))
             /\ e.e = 0 => RFloat(e.r) = R1
             /\ e.e = 1 => RFloat(e.r) = RFloat(e.b)
OkFact(e) == RI(e.r) = RFact(e.n)
OkBin(e)  == RI(e.r) = RBinom(e.n, e.m)
OkShape(e) == CASE e.k = "faces" -> OkFaces(e)
                [] e.k = "meas" -> OkMeas(e)
                [] e.k = "alias" -> OkAlias(e)
                [] e.k = "pow" -> OkPow(e)
                [] e.k = "powf" -> OkPowF(e)
                [] e.k = "fact" -> OkFact(e)
                [] e.k = "binom" -> OkBin(e)
=============================================================================
