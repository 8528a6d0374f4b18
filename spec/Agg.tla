-------------------------------- MODULE Agg ---------------------------------
(***************************************************************************)
(* Header aggregation.  A tree is a list of files, each with its path (a   *)
(* sequence of names) and its lines; a line is a quoted include (with the  *)
(* name as a sequence of components), a pragma once, or other text.        *)
(* An include resolves to the file of that name next to the including      *)
(* file, else in the first include directory that has it, else to nothing. *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
\* path arithmetic
RECURSIVE NormAt(_, _)
NormAt(done, p) ==
  IF p = <<>> THEN done
  ELSE IF Head(p) \in {".", ""} THEN NormAt(done, Tail(p))
  ELSE IF Head(p) = ".." THEN NormAt(IF done = <<>> THEN done ELSE Front(done), Tail(p))
  ELSE NormAt(Append(done, Head(p)), Tail(p))
Norm(p) == NormAt(<<>>, p)
Dir(p) == Front(p)
Paths(files) == {files[q].p : q \in DOMAIN files}
IndexOf(files, p) == CHOOSE q \in DOMAIN files : files[q].p = p
Exempt == <<"ShivaConfig.hpp">>            \* the configuration header is never pulled in
\* 0: nothing
Resolve(files, ok, from, name, incs) ==          \* ok: Paths(files)
  LET here == Norm(Dir(from) \o name)
      hits == {k \in DOMAIN incs : Norm(incs[k] \o name) \in ok}
  IN IF here \in ok THEN IndexOf(files, here)
     ELSE IF hits = {} THEN 0
     ELSE LET k == CHOOSE k \in hits : \A j \in hits : k <= j IN IndexOf(files, Norm(incs[k] \o name))
DepsOf(files, ok, q, incs) ==
  {Resolve(files, ok, files[q].p, files[q].lines[j].n, incs) : j \in {j \in DOMAIN files[q].lines : files[q].lines[j].k = "inc" /\ files[q].lines[j].n # Exempt}} \ {0}
Graph(files, incs) == LET ok == TLCEval(Paths(files)) IN TLCEval([q \in DOMAIN files |-> DepsOf(files, ok, q, incs)])
RECURSIVE Grow(_, _)
Grow(deps, S) == LET T == S \cup UNION {deps[q] : q \in S} IN IF T = S THEN S ELSE Grow(deps, TLCEval(T))
Reach(deps, roots) == Grow(deps, roots)
Acyclic(deps, S) == \A q \in S : q \notin Reach(deps, deps[q])
\* the same, for S closed under dependencies: what is left after headers without missing dependencies are taken away, again and again
RECURSIVE Peel(_, _)
Peel(deps, S) == LET rest == {q \in S : deps[q] \cap S # {}} IN IF rest = S THEN S ELSE Peel(deps, TLCEval(rest))
NoCircle(deps, S) == Peel(deps, S) = {}
\* emission: a needed header whose dependencies are out, not out itself
CanEmit(deps, need, out, q) == q \in need /\ q \notin ToSet(out) /\ deps[q] \subseteq ToSet(out)
Stuck(deps, need, out) == ToSet(out) # need /\ \A q \in need : ~CanEmit(deps, need, out, q)
=============================================================================
