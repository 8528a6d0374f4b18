------------------------------- MODULE ConcOps ------------------------------
(***************************************************************************)
(* Evaluations by several threads.  The outcome of an evaluation is a      *)
(* function of the operation and its input alone: there is nothing else in *)
(* the state, shared or kept, that it could depend on.  State: what every  *)
(* thread is evaluating.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANT Result(_, _)                         \* operation, input -> outcome
Idle == <<>>
ConcStart(threads) == [t \in threads |-> Idle]
CanBegin(s, t) == s[t] = Idle
Begin(s, t, f, x) == [s EXCEPT ![t] = <<f, x>>]
CanEnd(s, t, out) == s[t] # Idle /\ out = Result(s[t][1], s[t][2])
End(s, t) == [s EXCEPT ![t] = Idle]
=============================================================================
