----------------------------- MODULE DeviceOps ------------------------------
(***************************************************************************)
(* Launches of a device build.  The device has its own memory and runs     *)
(* kernels when it likes, after their launch and before whatever waits for *)
(* them ends.  To the caller a launch is what it is on the host (module    *)
(* KernelOps): atomic, once, in order; when the device fails it is said    *)
(* so, and the program ends exactly when that was asked for.               *)
(***************************************************************************)
EXTENDS KernelOps
\* ---- bookkeeping over the calls a wrapper makes:  [c, id, off, bytes, rc]
M0 == [live |-> <<>>, dead |-> {}, pend |-> 0, launches |-> 0, bad |-> FALSE]     \* live: allocation -> size
Inside(m, c) == c.id \in DOMAIN m.live /\ c.off >= 0 /\ c.off + c.bytes <= m.live[c.id]
MCall(m, c) ==
  CASE c.c \in {"malloc", "managed"} /\ c.id = 0 -> [m EXCEPT !.bad = @ \/ c.bytes # 0]          \* nothing allocated
    [] c.c \in {"malloc", "managed"} /\ c.id # 0 -> [m EXCEPT !.live = (c.id :> c.bytes) @@ @]
    [] c.c \in {"h2d", "memset"}     -> [m EXCEPT !.bad = @ \/ (c.bytes > 0 /\ ~Inside(m, c)), !.pend = 0]
    [] c.c = "d2h"                   -> [m EXCEPT !.bad = @ \/ (c.bytes > 0 /\ ~Inside(m, c)), !.pend = 0]
    [] c.c = "launch"                -> [m EXCEPT !.pend = @ + 1, !.launches = @ + 1]
    [] c.c = "sync"                  -> [m EXCEPT !.pend = 0]
    [] c.c = "free" /\ c.id = 0      -> [m EXCEPT !.pend = 0]
    [] c.c = "free" /\ c.id # 0      -> [m EXCEPT !.bad = @ \/ c.id \notin DOMAIN m.live, !.pend = 0, !.live = [d \in DOMAIN m.live \ {c.id} |-> m.live[d]]]
    [] OTHER                         -> [m EXCEPT !.bad = TRUE]                    \* a wrong direction, a wrong release, ...
RECURSIVE MCalls(_, _, _)
MCalls(m, cs, q) == IF q > Len(cs) THEN m ELSE MCalls(MCall(m, cs[q]), cs, q + 1)
\* nothing is left on the device, nothing was addressed wrongly
Tidy(cs, launches) == LET m == MCalls(M0, cs, 1) IN ~m.bad /\ m.live = <<>> /\ m.pend = 0 /\ m.launches = launches
=============================================================================
