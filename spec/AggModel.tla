------------------------------ MODULE AggModel ------------------------------
(* Emission over every dependency graph on N headers (acyclic ones only, unless Cyclic) and every set of roots; *)
(* when nothing can be emitted although something is missing, that is reported. *)
EXTENDS Agg
CONSTANTS N, Cyclic
VARIABLES deps, roots, out, failed
vars == <<deps, roots, out, failed>>
Nodes == 1..N
Need == Reach(deps, roots)
Init == /\ deps \in [Nodes -> SUBSET Nodes] /\ (Cyclic \/ Acyclic(deps, Nodes))
        /\ roots \in (SUBSET Nodes) \ {{}}
        /\ out = <<>> /\ failed = FALSE
Emit == /\ ~failed /\ \E q \in Nodes : CanEmit(deps, Need, out, q) /\ out' = Append(out, q)
        /\ UNCHANGED <<deps, roots, failed>>
Report == ~failed /\ Stuck(deps, Need, out) /\ failed' = TRUE /\ UNCHANGED <<deps, roots, out>>
Next == Emit \/ Report
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
SameNotion == Acyclic(deps, Need) = NoCircle(deps, Need)
Once == \A i, j \in DOMAIN out : out[i] = out[j] => i = j
AfterDeps == \A i \in DOMAIN out : \A d \in deps[out[i]] : \E j \in 1..i-1 : out[j] = d
OnlyNeeded == ToSet(out) \subseteq Need
NeverStuck == Acyclic(deps, Need) => ~Stuck(deps, Need, out)
Reported == failed => ~Acyclic(deps, Need)
Completes == <>(IF Acyclic(deps, Need) THEN ToSet(out) = Need ELSE failed)
\* what a header needs is out whenever the header is: the aggregate never uses what comes later
Closed == \A q \in ToSet(out) : Reach(deps, {q}) \subseteq ToSet(out)
=============================================================================
