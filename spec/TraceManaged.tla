---------------------------- MODULE TraceManaged ----------------------------
(***************************************************************************)
(* Conformance of the rest of a device build: managed memory and its       *)
(* release, assertions and checked accesses in code compiled for the       *)
(* device, every header in both kinds of device build, and the library's   *)
(* operations in the device's and the host's pass over the sources.        *)
(***************************************************************************)
EXTENDS DeviceOps, TraceCfg
OkDevEvent(e) ==
  CASE e.k = "managed" -> /\ Tidy(e.calls, 0)
                          /\ Len(e.calls) >= 2 /\ e.calls[1].c = "managed" /\ e.calls[1].bytes = e.n * e.size
    [] e.k = "assert" -> /\ e.trapped = ~e.cond
                         /\ e.passed = e.cond
                         /\ IF e.cond THEN e.silent ELSE e.told
    [] e.k = "sized" -> e.ran = 1 /\ e.device /\ e.seen = e.n /\ e.right = e.n /\ e.guards /\ Tidy(e.calls, 1)
    [] OTHER -> JudgeCfg(e)
=============================================================================
