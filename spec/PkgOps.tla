------------------------------- MODULE PkgOps -------------------------------
(***************************************************************************)
(* Configuring, installing and using the library.  A build directory keeps *)
(* the options it was given (the cache) and the configuration header   *)
(* generated there (none when the last request was impossible); a prefix keeps the configuration last installed there; *)
(* a client sees the configuration of the subdirectory it adds or of the   *)
(* package it finds.                                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences
Opts == {"SHIVA_ENABLE_BOUNDS_CHECK", "SHIVA_ENABLE_CUDA", "SHIVA_ENABLE_HIP", "SHIVA_ENABLE_CAMP", "ENABLE_CUDA", "ENABLE_HIP"}
None == [none |-> TRUE]
NoOpt == [x \in {} |-> TRUE]                  \* (no option given)
Empty == [cache |-> NoOpt, norm |-> NoOpt, cv |-> <<0, 0>>, hdr |-> None, to |-> 0]      \* to: the prefix it was configured for
PkgInit(builds, prefixes) == [b |-> [q \in 1..builds |-> Empty], p |-> [q \in 1..prefixes |-> None]]
\* options given as a list of <<name, on or off>>, the later ones win
With(f, list) == [x \in DOMAIN f \cup {list[i][1] : i \in DOMAIN list} |->
                    LET is == {i \in DOMAIN list : list[i][1] = x} IN IF is = {} THEN f[x] ELSE list[CHOOSE i \in is : \A j \in is : j <= i][2]]
Without(f, names) == [x \in DOMAIN f \ names |-> f[x]]
Given(b, x) == IF x \in DOMAIN b.norm THEN b.norm[x] ELSE IF x \in DOMAIN b.cache THEN b.cache[x] ELSE FALSE
\* what the options given amount to
Cuda(b) == Given(b, "ENABLE_CUDA") \/ Given(b, "SHIVA_ENABLE_CUDA")
Hip(b) == Given(b, "ENABLE_HIP") \/ Given(b, "SHIVA_ENABLE_HIP")
Possible(b) == ~(Cuda(b) /\ Hip(b))
Header(b) == [bounds |-> Given(b, "SHIVA_ENABLE_BOUNDS_CHECK"), cuda |-> Cuda(b), hip |-> Hip(b), camp |-> Given(b, "SHIVA_ENABLE_CAMP"),
              cudaver |-> IF Cuda(b) THEN b.cv ELSE <<0, 0>>]
\* op: [b, sets, unset, norm, cv]
Asked(b, op) ==
  [b EXCEPT !.cache = With(Without(@, {op.unset[i] : i \in DOMAIN op.unset}), op.sets), !.norm = With(NoOpt, op.norm),
            !.cv = IF op.cv = <<>> THEN @ ELSE IF Len(op.cv) = 1 THEN <<op.cv[1], 0>> ELSE SubSeq(op.cv, 1, 2)]
Configured(b, op) == LET a == Asked(b, op) IN [a EXCEPT !.hdr = IF Possible(a) THEN Header(a) ELSE None]
\* the configuration script: a new build directory for a prefix, which is cleaned; settings of the host's file, then of the command line
Wrapped(s, op) ==
  LET b == Configured(Empty, [sets |-> op.host \o op.sets, unset |-> <<>>, norm |-> <<>>, cv |-> op.cv])
  IN [b |-> [q \in DOMAIN s.b |-> IF q = op.b THEN [b EXCEPT !.to = op.p] ELSE IF s.b[q].to = op.p THEN [s.b[q] EXCEPT !.to = 0] ELSE s.b[q]],
      p |-> [s.p EXCEPT ![op.p] = None]]
PkgApply(s, op) ==
  CASE op.o = "conf"    -> [s EXCEPT !.b[op.b] = Configured(@, op)]
    [] op.o = "wrap"    -> Wrapped(s, op)
    [] op.o = "install" -> IF s.b[op.b].hdr = None THEN s ELSE [s EXCEPT !.p[op.p] = s.b[op.b].hdr]
    [] op.o = "move"    -> [s EXCEPT !.p[op.q] = s.p[op.p], !.p[op.p] = IF op.p = op.q THEN @ ELSE None]
    [] op.o = "drop"    -> [s EXCEPT !.b[op.b] = Empty]
    [] OTHER            -> s                                                      \* "use", "find": clients; "nest": the script with directories of its own, one inside the other
\* may a client that asks for this version (any number of components) have version v?
Pad(r) == r \o SubSeq(<<0, 0, 0>>, Len(r) + 1, 3)
NotAbove(r, v) == r[1] < v[1] \/ (r[1] = v[1] /\ (r[2] < v[2] \/ (r[2] = v[2] /\ r[3] <= v[3])))
Compatible(r, v) == r = <<>> \/ (r[1] = v[1] /\ NotAbove(Pad(r), v))
=============================================================================
