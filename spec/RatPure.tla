------------------------------ MODULE RatPure ------------------------------
(***************************************************************************)
(* Exact rational arithmetic in pure TLA+.                                 *)
(*                                                                         *)
(* TLC integers are 32 bit, so an integer of any size is a tuple           *)
(*    <<s, l0, l1, ...>>   s in {-1,0,1}, limbs base 2^15, least           *)
(*                         significant first, no leading zero limb         *)
(* and a rational is <<n, d>> with d > 0 and gcd(n,d) = 1, so that equality*)
(* of TLA+ values is equality of numbers.  These definitions are the       *)
(* meaning of the operators of module Rat; the Java override used for      *)
(* speed is checked against them by RatSelf.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences

BASE == 32768

P_Zero == <<0>>

\* ---- magnitudes: sequences of limbs ----
RECURSIVE P_Trim(_)
P_Trim(m) == IF m = <<>> THEN m
             ELSE IF m[Len(m)] = 0 THEN P_Trim(SubSeq(m, 1, Len(m)-1)) ELSE m

P_L(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
P_Max(a, b) == IF a > b THEN a ELSE b

RECURSIVE P_MCmpAt(_, _, _)
P_MCmpAt(a, b, i) == IF i = 0 THEN 0
                     ELSE IF a[i] > b[i] THEN 1
                     ELSE IF a[i] < b[i] THEN -1
                     ELSE P_MCmpAt(a, b, i-1)
P_MCmp(a, b) == IF Len(a) > Len(b) THEN 1
                ELSE IF Len(a) < Len(b) THEN -1
                ELSE P_MCmpAt(a, b, Len(a))

RECURSIVE P_MAddC(_, _, _, _, _)
P_MAddC(a, b, i, c, acc) ==
  IF i > P_Max(Len(a), Len(b))
  THEN IF c = 0 THEN acc ELSE Append(acc, c)
  ELSE LET t == P_L(a,i) + P_L(b,i) + c
       IN P_MAddC(a, b, i+1, t \div BASE, Append(acc, t % BASE))
P_MAdd(a, b) == P_MAddC(a, b, 1, 0, <<>>)

RECURSIVE P_MSubC(_, _, _, _, _)    \* requires a >= b
P_MSubC(a, b, i, c, acc) ==
  IF i > Len(a) THEN P_Trim(acc)
  ELSE LET t == P_L(a,i) - P_L(b,i) - c
       IN IF t < 0 THEN P_MSubC(a, b, i+1, 1, Append(acc, t + BASE))
                   ELSE P_MSubC(a, b, i+1, 0, Append(acc, t))
P_MSub(a, b) == P_MSubC(a, b, 1, 0, <<>>)

RECURSIVE P_MMul1(_, _, _, _, _)    \* a * single limb k
P_MMul1(a, k, i, c, acc) ==
  IF i > Len(a) THEN P_Trim(IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET t == a[i] * k + c
       IN P_MMul1(a, k, i+1, t \div BASE, Append(acc, t % BASE))
RECURSIVE P_MMulC(_, _, _)
P_MMulC(a, b, i) ==                 \* sum over limbs i.. of b, Horner from the top
  IF i > Len(b) THEN <<>>
  ELSE LET rest == P_MMulC(a, b, i+1)
           sh   == IF rest = <<>> THEN <<>> ELSE <<0>> \o rest
       IN P_MAdd(P_MMul1(a, b[i], 1, 0, <<>>), sh)
P_MMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE P_Trim(P_MMulC(a, b, 1))

RECURSIVE P_BitsOf(_)               \* bit length of one limb
P_BitsOf(x) == IF x = 0 THEN 0 ELSE 1 + P_BitsOf(x \div 2)
P_MBits(m) == IF m = <<>> THEN 0 ELSE 15*(Len(m)-1) + P_BitsOf(m[Len(m)])

RECURSIVE P_MPow2(_)
P_MPow2(k) == IF k < 15 THEN <<2^k>> ELSE <<0>> \o P_MPow2(k - 15)

P_MHalf(m) == P_Trim([i \in 1..Len(m) |-> (m[i] \div 2) + (P_L(m, i+1) % 2) * (BASE \div 2)])

\* shift-subtract long division: b shifted up under a, then back down one bit at a time
RECURSIVE P_MDivC(_, _, _, _)
P_MDivC(bs, k, q, r) ==
  IF k < 0 THEN <<q, r>>
  ELSE LET q2 == P_MAdd(q, q)
       IN IF P_MCmp(r, bs) >= 0
          THEN P_MDivC(P_MHalf(bs), k-1, P_MAdd(q2, <<1>>), P_MSub(r, bs))
          ELSE P_MDivC(P_MHalf(bs), k-1, q2, r)
P_MDivMod(a, b) ==
  LET k == P_MBits(a) - P_MBits(b)
  IN IF k < 0 THEN <<<<>>, a>> ELSE P_MDivC(P_MMul(b, P_MPow2(k)), k, <<>>, a)

RECURSIVE P_MGcd(_, _)
P_MGcd(a, b) == IF b = <<>> THEN a ELSE P_MGcd(b, P_MDivMod(a, b)[2])

\* ---- signed integers ----
P_Mag(a) == Tail(a)
P_Mk(s, m) == IF m = <<>> THEN P_Zero ELSE <<s>> \o m
P_BNeg(a) == <<-a[1]>> \o Tail(a)
P_BMul(a, b) == P_Mk(a[1]*b[1], P_MMul(Tail(a), Tail(b)))
P_BAdd(a, b) ==
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a
  ELSE IF a[1] = b[1] THEN P_Mk(a[1], P_MAdd(Tail(a), Tail(b)))
  ELSE LET c == P_MCmp(Tail(a), Tail(b))
       IN IF c = 0 THEN P_Zero
          ELSE IF c > 0 THEN P_Mk(a[1], P_MSub(Tail(a), Tail(b)))
          ELSE P_Mk(b[1], P_MSub(Tail(b), Tail(a)))
P_BInt(i) ==  \* from a TLC integer
  LET a == IF i < 0 THEN -i ELSE i
  IN P_Mk(IF i < 0 THEN -1 ELSE 1,
          P_Trim(<<a % BASE, (a \div BASE) % BASE, a \div (BASE*BASE)>>))

\* ---- rationals ----
P_RMk(n, d) ==  \* d a non-zero magnitude
  IF n[1] = 0 THEN <<P_Zero, <<1,1>>>>
  ELSE LET g == P_MGcd(Tail(n), d)
       IN <<P_Mk(n[1], P_MDivMod(Tail(n), g)[1]), P_Mk(1, P_MDivMod(d, g)[1])>>
P_RInt(i) == <<P_BInt(i), <<1,1>>>>
P_RAdd(x, y) == P_RMk(P_BAdd(P_BMul(x[1], y[2]), P_BMul(y[1], x[2])), P_MMul(Tail(x[2]), Tail(y[2])))
P_RNeg(x) == <<P_BNeg(x[1]), x[2]>>
P_RSub(x, y) == P_RAdd(x, P_RNeg(y))
P_RMul(x, y) == P_RMk(P_BMul(x[1], y[1]), P_MMul(Tail(x[2]), Tail(y[2])))
P_RDiv(x, y) == P_RMk(P_BMul(P_Mk(x[1][1], Tail(x[1])), P_Mk(y[1][1], Tail(y[2]))), P_MMul(Tail(x[2]), Tail(y[1])))
P_RCmp(x, y) == P_RSub(x, y)[1][1]
\* Round to at most `bits` significant bits, towards zero: relative error < 2^(1-bits)
P_RTrunc(x, bits) ==
  IF x[1][1] = 0 THEN x
  ELSE LET n == Tail(x[1])  d == Tail(x[2])
           e == P_MBits(n) - P_MBits(d) - bits      \* quotient by 2^e has bits or bits+1 bits
           q == IF e >= 0 THEN P_MDivMod(n, P_MMul(d, P_MPow2(e)))[1]
                          ELSE P_MDivMod(P_MMul(n, P_MPow2(-e)), d)[1]
       IN IF e >= 0 THEN P_RMk(P_Mk(x[1][1], P_MMul(q, P_MPow2(e))), <<1>>)
                    ELSE P_RMk(P_Mk(x[1][1], q), P_MPow2(-e))
\* A binary floating-point number as logged: <<s, e, l0, l1, l2, l3>> = s * (sum l_i 2^(15 i)) * 2^e
P_RFloat(t) ==
  LET m == P_Trim(SubSeq(t, 3, Len(t)))
  IN IF t[1] = 0 \/ m = <<>> THEN <<P_Zero, <<1,1>>>>
     ELSE IF t[2] >= 0 THEN P_RMk(P_Mk(t[1], P_MMul(m, P_MPow2(t[2]))), <<1>>)
     ELSE P_RMk(P_Mk(t[1], m), P_MPow2(-t[2]))
=============================================================================
