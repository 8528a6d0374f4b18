------------------------------ MODULE ConcModel -----------------------------
(***************************************************************************)
(* How evaluations come to satisfy ConcOps: an evaluation takes several    *)
(* steps (it reads its input, works in scratch storage, returns), which    *)
(* interleave with those of other threads; shared objects are only read,   *)
(* and a thread may set an object of its own before it queries it.         *)
(* Where = "own": scratch belongs to the evaluation - every outcome is the *)
(* one the evaluation has alone.  Where = "shared" and "kept" model an     *)
(* implementation with hidden state (one scratch for all threads; results  *)
(* remembered under a key that omits part of the input): TLC shows that    *)
(* each is told apart by histories as short as those checked.              *)
(***************************************************************************)
EXTENDS ConcOps
CONSTANTS Threads, Ops, Inputs, MaxEvals, Where
VARIABLES s, pc, scratch, memo, shared, left, wrong
vars == <<s, pc, scratch, memo, shared, left, wrong>>
Res(f, x) == (3 * f + x * x + shared) % 7
C == INSTANCE ConcOps WITH Result <- Res
Slot(t) == IF Where = "shared" THEN 0 ELSE t
Init == /\ s = ConcStart(Threads) /\ pc = [t \in Threads |-> "idle"] /\ scratch = [q \in {0} \cup Threads |-> 0] /\ memo = [f \in Ops |-> <<>>]
        /\ shared \in 0..1 /\ left = MaxEvals /\ wrong = FALSE
Start(t) == /\ pc[t] = "idle" /\ left > 0 /\ CanBegin(s, t)
            /\ \E f \in Ops, x \in Inputs : s' = Begin(s, t, f, x)
            /\ pc' = [pc EXCEPT ![t] = "load"] /\ left' = left - 1 /\ UNCHANGED <<scratch, memo, shared, wrong>>
Load(t) == /\ pc[t] = "load" /\ scratch' = [scratch EXCEPT ![Slot(t)] = (3 * s[t][1] + s[t][2] * s[t][2]) % 7]
           /\ pc' = [pc EXCEPT ![t] = "add"] /\ UNCHANGED <<s, memo, shared, left, wrong>>
Add(t) == /\ pc[t] = "add" /\ scratch' = [scratch EXCEPT ![Slot(t)] = (@ + shared) % 7]
          /\ pc' = [pc EXCEPT ![t] = "return"] /\ UNCHANGED <<s, memo, shared, left, wrong>>
Return(t) ==
  LET f == s[t][1]
      out == IF Where = "kept" /\ memo[f] # <<>> THEN memo[f][1] ELSE scratch[Slot(t)]
  IN /\ pc[t] = "return" /\ memo' = [memo EXCEPT ![f] = IF @ = <<>> THEN <<out>> ELSE @]
     /\ wrong' = (wrong \/ ~C!CanEnd(s, t, out))
     /\ s' = End(s, t) /\ pc' = [pc EXCEPT ![t] = "idle"] /\ UNCHANGED <<scratch, shared, left>>
Next == \E t \in Threads : Start(t) \/ Load(t) \/ Add(t) \/ Return(t)
Spec == Init /\ [][Next]_vars
AsAlone == (Where = "own") => ~wrong
\* the two faulty designs are exposed within the bound
Exposed == TLCSet(20, TLCGet(20) \/ wrong)
ASSUME TLCSet(20, FALSE)
Told == (Where # "own") => TLCGet(20)
=============================================================================
