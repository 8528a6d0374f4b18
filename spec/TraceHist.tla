----------------------------- MODULE TraceHist ------------------------------
(***************************************************************************)
(* Validation of recorded histories: every trace line is one history, a    *)
(* header with a sequence `ops` of operations and what was observed after  *)
(* each.  Every step must be a step of the specification.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC, Json, IOUtils
CONSTANTS InitSt(_),          \* header -> model state
          Apply(_, _, _),     \* header, state, operation -> next state
          Ok(_, _, _, _)      \* header, state, next state, operation: are the observations those of this step?
VARIABLES h, i, st
hvars == <<h, i, st>>
ASSUME TLCSet(10, ndJsonDeserialize(IOEnv.TRACE))
Trace == TLCGet(10)
HInit == h \in 1..Len(Trace) /\ i = 0 /\ st = InitSt(Trace[h])
HNext ==
  /\ i < Len(Trace[h].ops)
  /\ LET op == Trace[h].ops[i+1]
         s2 == TLCEval(Apply(Trace[h], st, op))
     IN /\ IF Ok(Trace[h], st, s2, op) THEN TRUE ELSE PrintT(<<"REJECT", h, i+1>>) /\ FALSE
        /\ st' = s2
  /\ i' = i + 1
  /\ h' = h
HSpec == HInit /\ [][HNext]_hvars
AllConsumed == TLCGet("stats").distinct = FoldLeft(LAMBDA a, e : a + Len(e.ops) + 1, 0, Trace)
=============================================================================
