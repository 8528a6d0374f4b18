----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Validation of a recorded trace whose events are judged one by one       *)
(* against the specification (operations whose outcome is a function of    *)
(* the arguments).  The trace is cut into chunks so that TLC's workers     *)
(* share it; every line is consumed exactly once, and a line the           *)
(* specification rejects is reported as <<"REJECT", line>>.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT Judge(_)          \* is this event one the specification allows?
VARIABLES l, hi
tvars == <<l, hi>>
ASSUME TLCSet(10, ndJsonDeserialize(IOEnv.TRACE))
Trace == TLCGet(10)
NEvents == Len(Trace)
CHUNK == atoi(IOEnv.CHUNK)
TInit == \E c \in 0..((NEvents - 1) \div CHUNK) :
           /\ l = c * CHUNK + 1
           /\ hi = IF (c+1)*CHUNK < NEvents THEN (c+1)*CHUNK ELSE NEvents
TNext == /\ l <= hi
         /\ l' = l + 1
         /\ hi' = hi
         /\ \/ Judge(Trace[l])
            \/ ~Judge(Trace[l]) /\ PrintT(<<"REJECT", l>>)
TSpec == TInit /\ [][TNext]_tvars
\* Every line was consumed: one state per line and one initial state per chunk.
AllConsumed == TLCGet("stats").distinct = NEvents + ((NEvents - 1) \div CHUNK) + 1
=============================================================================
