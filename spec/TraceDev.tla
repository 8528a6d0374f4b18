------------------------------ MODULE TraceDev ------------------------------
(* Conformance of launches on the (simulated) device: what the caller sees when each returns, and the device calls made. *)
EXTENDS DeviceOps, TraceHist
DInit(hd) == KStart(hd.sizes)
\* after a failure the part of the buffer that was sent to the device is whatever came back
DStep(hd, s, op) ==
  IF ~op.fault THEN KApply(s, op)
  ELSE IF op.o = "data" /\ ~op.aborted THEN [s EXCEPT !.bufs[op.b] = IF Len(op.bufs[op.b]) = Len(@) THEN SubSeq(@, 1, op.off) \o SubSeq(op.bufs[op.b], op.off + 1, Len(@)) ELSE @]
  ELSE s
DOk(hd, s, s2, op) ==
  /\ op.o \in {"plain", "data", "null"}
  /\ op.guards /\ op.log = s2.log /\ op.sum = s2.sum /\ op.bufs = s2.bufs
  /\ op.aborted = (op.fault /\ op.ab)
  /\ (op.fault => op.reported)
  /\ (~op.fault => op.silent)
  /\ (~op.aborted => op.waiting = 0 /\ Tidy(op.calls, 1))
  /\ op.ran = (IF op.fault THEN 0 ELSE 1)
  /\ op.ondevice
=============================================================================
