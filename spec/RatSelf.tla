------------------------------ MODULE RatSelf ------------------------------
(* The Java override of module Rat agrees with the pure TLA+ definitions,  *)
(* and the ordered-field laws hold, on every pair of reachable values.     *)
EXTENDS Rat, TLC, FiniteSets
VARIABLES x, y, k
Seeds == { P_RInt(0), P_RInt(1), P_RInt(-1), P_RInt(32767), P_RInt(32768), P_RInt(-2147483647),
           P_RFloat(<<1, -3, 5, 0, 0, 0>>), P_RFloat(<<-1, -52, 1, 32767, 21845, 255>>),
           P_RFloat(<<1, 40, 3, 1, 0, 128>>), P_RDiv(P_RInt(22), P_RInt(-7)),
           P_RDiv(P_RInt(1), P_RInt(32769)) }
Init == x \in Seeds /\ y \in Seeds /\ k = 0
Next == /\ k < 1 /\ k' = k + 1
        /\ \/ x' = P_RAdd(x, y) /\ y' = P_RMul(y, P_RInt(-3))
           \/ x' = P_RMul(x, y) /\ y' = P_RAdd(y, P_RDiv(P_RInt(1), P_RInt(3)))
           \/ y[1][1] # 0 /\ x' = P_RDiv(x, y) /\ y' = y
           \/ x' = P_RTrunc(x, 20) /\ y' = x
Agree ==
  /\ RAdd(x, y) = P_RAdd(x, y)
  /\ RSub(x, y) = P_RSub(x, y)
  /\ RMul(x, y) = P_RMul(x, y)
  /\ y[1][1] # 0 => RDiv(x, y) = P_RDiv(x, y)
  /\ RNeg(x) = P_RNeg(x)
  /\ RCmp(x, y) = P_RCmp(x, y)
  /\ \A b \in {1, 7, 53, 64} : RTrunc(x, b) = P_RTrunc(x, b)
  /\ \A b \in {1, 53} : RLe(RAbs(RTrunc(x, b)), RAbs(x))
Laws ==
  /\ RAdd(x, y) = RAdd(y, x) /\ RMul(x, y) = RMul(y, x)
  /\ RSub(RAdd(x, y), y) = x
  /\ RMul(x, RAdd(x, y)) = RAdd(RMul(x, x), RMul(x, y))
  /\ y[1][1] # 0 => RMul(RDiv(x, y), y) = x
ASSUME \A i \in {0, 1, -1, 32767, 32768, -32769, 1073741824, 2147483647} : RInt(i) = P_RInt(i)
ASSUME \A t \in { <<1,0,1,2,3,4>>, <<-1,-7,64,0,0,0>>, <<1,16,5,0,0,0>>, <<0,0,0,0,0,0>>, <<-1,-1074,32767,32767,32767,255>> } : RFloat(t) = P_RFloat(t)
=============================================================================
