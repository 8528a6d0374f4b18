------------------------------- MODULE PkgGen -------------------------------
(* Random histories of configuring, installing and using the library.       *)
EXTENDS GenBase, PkgOps
CONSTANT MaxLen
VARIABLES hd, ops, s, done
On == <<"ON", "1", "TRUE", "YES", "Y", "on", "True">>
Off == <<"OFF", "0", "FALSE", "NO", "N", "off", "">>
Names == <<"SHIVA_ENABLE_BOUNDS_CHECK", "SHIVA_ENABLE_BOUNDS_CHECK", "SHIVA_ENABLE_CUDA", "SHIVA_ENABLE_HIP", "SHIVA_ENABLE_CAMP", "ENABLE_CUDA", "ENABLE_HIP">>
NB == 3
NP == 2
Init == hd = <<>> /\ ops = <<>> /\ s = PkgInit(NB, NP) /\ done = FALSE
\* build 3 has the library as a subdirectory
Start == /\ hd = <<>>
         /\ hd' = [nb |-> NB, np |-> NP, len |-> Rnd(5..MaxLen), inc |-> <<"include", "include", "include/deep", "inc">>[Rnd(1..4)], lib |-> <<"lib", "lib", "share">>[Rnd(1..3)],
                   std |-> <<0, 14, 17, 20>>[Rnd(1..4)], cxx |-> <<"g++", "g++", "clang++">>[Rnd(1..3)], gen |-> <<"Ninja", "Ninja", "Unix Makefiles">>[Rnd(1..3)]]
         /\ UNCHANGED <<ops, s, done>>
Word(v) == IF v THEN On[Rnd(1..7)] ELSE Off[Rnd(1..7)]
\* mostly few options on, so that most requests are possible
Setting(i) == LET v == Rnd(1..5) <= 3 IN <<Names[Rnd(1..7)], v, Word(v)>>
ListOf(n) == [q \in 1..n |-> Setting(q)]
Lens == <<0, 1, 1, 2, 2, 3>>
Conf == \E b \in {Rnd(1..NB)}, sets \in {ListOf(Lens[Rnd(1..6)])}, un \in {[q \in 1..Lens[Rnd(1..4)] |-> Names[Rnd(1..7)]]}, norm \in {ListOf(Lens[Rnd(1..5)])},
           cv \in {<<<<>>, <<>>, <<>>, <<12>>, <<11, 8>>, <<12, 4, 131>>>>[Rnd(1..6)]} :
          LET op == [o |-> "conf", b |-> b, sets |-> sets, unset |-> un, norm |-> IF b = NB THEN norm ELSE <<>>, cv |-> cv]
          IN ops' = Append(ops, op)
Types == <<"Release", "Debug", "RelWithDebInfo", "MinSizeRel">>
Notes == 8            \* values to be passed on unchanged (the driver has the list)
WrapOp(nest) == [o |-> IF nest THEN "nest" ELSE "wrap", b |-> Rnd(1..2), p |-> Rnd(1..NP), host |-> (CHOOSE l \in {ListOf(Lens[Rnd(1..5)])} : TRUE), sets |-> (CHOOSE l \in {ListOf(Lens[Rnd(1..5)])} : TRUE),
                 cv |-> <<<<>>, <<12>>, <<11, 8>>>>[Rnd(1..3)], bt |-> Types[Rnd(1..4)], note |-> Rnd(1..Notes), paths |-> <<"given", "default", "relative">>[Rnd(1..3)], form |-> Rnd(0..3)]
OpOf(k) ==
  CASE k <= 4 -> LET bs == {b \in 1..2 : s.b[b].hdr # None} IN
                 IF bs = {} THEN [o |-> "find", p |-> Rnd(1..NP), ask |-> "none", via |-> "path", twice |-> FALSE]
                 ELSE LET b == CHOOSE b \in {Rnd(bs)} : TRUE IN
                      IF s.b[b].to # 0 /\ Rnd(1..2) = 1 THEN [o |-> "install", b |-> b, p |-> s.b[b].to, mode |-> "own"]
                      ELSE [o |-> "install", b |-> b, p |-> Rnd(1..NP), mode |-> <<"prefix", "destdir">>[Rnd(1..2)]]
    [] k <= 8 -> [o |-> "find", p |-> (LET ps == {p \in 1..NP : s.p[p] # None} IN IF ps # {} /\ Rnd(1..5) # 1 THEN Rnd(ps) ELSE Rnd(1..NP)), ask |-> <<"none", "none", "none", "same", "major", "majorminor", "older", "minor+1", "patch+1", "major+1">>[Rnd(1..10)],
                  via |-> <<"path", "dir", "root">>[Rnd(1..3)], twice |-> Rnd(BOOLEAN)]
    [] k <= 11 -> [o |-> "use", b |-> NB]
    [] k = 12 -> [o |-> "move", p |-> 1, q |-> 2]
    [] k = 13 -> [o |-> "drop", b |-> Rnd(1..NB)]
    [] k <= 16 -> WrapOp(FALSE)
    [] k = 17 -> WrapOp(TRUE)
Other == \E k \in {Rnd(1..17)} : \E op \in {OpOf(k)} : ops' = Append(ops, op)
Step == /\ hd # <<>> /\ Len(ops) < hd.len
        /\ \E c \in {Rnd(1..3)} : IF c = 1 \/ Len(ops) < 2 THEN Conf ELSE Other
        /\ s' = PkgApply(s, ops'[Len(ops')])
        /\ UNCHANGED <<hd, done>>
Emit == hd # <<>> /\ Len(ops) = hd.len /\ ~done /\ done' = TRUE /\ UNCHANGED <<hd, ops, s>>
        /\ EmitTo(IOEnv.OUT, [hd |-> hd, ops |-> Append(Append(ops, [o |-> "use", b |-> NB]), [o |-> "find", p |-> Rnd(1..NP), ask |-> "none", via |-> "path", twice |-> TRUE])])
Next == Start \/ Step \/ Emit
Spec == Init /\ [][Next]_<<hd, ops, s, done>>
=============================================================================
