------------------------------ MODULE TracePkg ------------------------------
(* Conformance of recorded configurations, installations and clients with   *)
(* module PkgOps.                                                           *)
EXTENDS PkgOps, TraceHist
PInit(hd) == PkgInit(hd.nb, hd.np)
PApply(hd, s, op) == PkgApply(s, op)
\* the version a client asks for, in terms of the library's
Asked4(a, v) ==
  CASE a = "none" -> <<>> [] a = "same" -> v [] a = "major" -> <<v[1]>> [] a = "majorminor" -> <<v[1], v[2]>>
    [] a = "older" -> <<v[1], 0, 0>> [] a = "minor+1" -> <<v[1], v[2] + 1>> [] a = "patch+1" -> <<v[1], v[2], v[3] + 1>> [] a = "major+1" -> <<v[1] + 1, 0>>
\* a configuration header as seen by the preprocessor
Says(x, c, v) == /\ x.bounds = c.bounds /\ x.cuda = c.cuda /\ x.hip = c.hip /\ x.camp = c.camp /\ x.cudaver = c.cudaver /\ x.ver = v
\* a client that was built and run
Client(hd, op, c) == /\ op.built /\ Says(op.x, c, hd.ver) /\ op.pver = hd.ver
                     /\ op.x.std >= 201703 /\ (hd.std = 20 => op.x.std >= 202002)
                     /\ (op.x.checks # 2 => op.x.checks = IF c.bounds THEN 1 ELSE 0)      \* (2: not tried)
                     /\ op.missing = <<>>
                     /\ op.x.checks = 2 => c.cuda \/ c.hip \/ c.camp
POk(hd, s, s2, op) ==
  CASE op.o = "conf" ->
         LET b == s2.b[op.b] IN /\ op.ok = Possible(b)
                                /\ (Possible(b) => Says(op.x, b.hdr, hd.ver))
    [] op.o = "wrap" ->
         LET b == s2.b[op.b] IN /\ op.ok = Possible(b) /\ (Possible(b) => Says(op.x, b.hdr, hd.ver))
                                /\ op.fresh /\ ~op.elsewhere /\ (Possible(b) => op.note /\ op.type /\ op.to /\ op.db = (op.form \in {0, 3}))
    [] op.o = "nest" ->
         LET b == Configured(Empty, [sets |-> op.host \o op.sets, unset |-> <<>>, norm |-> <<>>, cv |-> op.cv])
         IN op.ok = Possible(b) /\ (Possible(b) => Says(op.x, b.hdr, hd.ver)) /\ ~op.elsewhere
    [] op.o = "install" -> op.ok
    [] op.o = "find" -> /\ op.found = (s.p[op.p] # None /\ Compatible(Asked4(op.ask, hd.ver), hd.ver))
                        /\ (op.found => Client(hd, op, s.p[op.p]))
    [] op.o = "use" -> IF s.b[op.b].hdr = None THEN ~op.built ELSE Client(hd, op, s.b[op.b].hdr)
    [] OTHER -> TRUE
=============================================================================
