------------------------------ MODULE GenBase -------------------------------
(* Writing generated behaviours as scripts, one JSON line per behaviour.    *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
EmitTo(file, value) ==
  Serialize(ToJson(value) \o "\n", file, [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]).exitValue = 0
Rnd(S) == RandomElement(S)
RndSeq(n, S) == [q \in 1..n |-> RandomElement(S)]
=============================================================================
