------------------------------ MODULE CfgModel ------------------------------
(***************************************************************************)
(* The library as something a program observes, evaluated in different     *)
(* ways.  A way is the moment of evaluation (constant expression or run    *)
(* time), the language standard, and whether accesses are checked; the     *)
(* standard and the moment select different formulations of the same       *)
(* operation (tables against index arithmetic, template-argument packs     *)
(* against function-argument packs), and storage that has not been         *)
(* written holds anything.  Two copies run the same program in lock step   *)
(* (self-composition): the property is that they observe the same.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MaxOps
Ways == [when : {"ct", "rt"}, std : {17, 20}, check : BOOLEAN]
VARIABLES wa, wb, ma, mb, defd, oa, ob, n
vars == <<wa, wb, ma, mb, defd, oa, ob, n>>

(*** index arithmetic of the run-time forms against the tables of the compile-time forms ***)
Bit(i, b) == (i \div b) % 2
\* nodes as signed names of the tabulated constants (0 = the node 0, 9 = the node 1)
NodeCT == [gl2 |-> <<-1, 1>>, gl3 |-> <<-1, 0, 1>>, gl4 |-> <<-2, -1, 1, 2>>, gll3 |-> <<-9, 0, 9>>, gll4 |-> <<-9, -1, 1, 9>>]
NodeRT == [gl2 |-> [i \in 0..1 |-> -1 + i * 2], gl3 |-> [i \in 0..2 |-> -1 + i],
           gl4 |-> [i \in 0..3 |-> (IF Bit(i + 1, 2) = 0 THEN 2 ELSE 1) * (2 * Bit(i, 2) - 1)],
           gll3 |-> [i \in 0..2 |-> 9 * (-1 + i)],
           gll4 |-> [i \in 0..3 |-> (2 * Bit(i, 2) - 1) * (9 - Bit(i + 1, 2) * (9 - 1))]]
Node(w, f, i) == IF w.when = "ct" THEN NodeCT[f][i + 1] ELSE NodeRT[f][i]
\* weights, in 1/18 for the rules with three points, as table index otherwise
WCT == [gl3 |-> <<10, 16, 10>>, gl4 |-> <<-1, 1, 1, -1>>, gll3 |-> <<6, 24, 6>>, gll4 |-> <<3, 15, 15, 3>>, gll5 |-> <<0, 1, 2, 1, 0>>]
WRT == [gl3 |-> [i \in 0..2 |-> 10 + 6 * Bit(i, 1)], gl4 |-> [i \in 0..3 |-> -1 + 2 * Bit(i + 1, 2)],
        gll3 |-> [i \in 0..2 |-> 6 + 18 * Bit(i, 1)], gll4 |-> [i \in 0..3 |-> 3 + Bit(i + 1, 2) * 12],
        gll5 |-> [i \in 0..4 |-> Bit(i, 1) + (IF i - 2 = 0 THEN 2 ELSE 0)]]
Weight(w, f, i) == IF w.when = "ct" THEN WCT[f][i + 1] ELSE WRT[f][i]

(*** two formulations of the tensor-product gradient: B[k][i] is basis value, D[k][i] its derivative ***)
B == << <<2, 3>>, <<5, 7>> >>
D == << <<11, 13>>, <<17, 19>> >>
RECURSIVE FoldProd(_, _)
FoldProd(s, k) == IF k > Len(s) THEN 1 ELSE s[k] * FoldProd(s, k + 1)
Term(c, k, i) == IF c = k THEN D[k][i] ELSE B[k][i]
\* C++20: the pack of positions is a template argument and the component is deduced from it
Grad20(ix) == [c \in 1..2 |-> FoldProd([k \in 1..2 |-> Term(c, k, ix[k])], 1)]
\* C++17: positions are arguments; the same product accumulated from the other end
RECURSIVE Grad17Acc(_, _, _)
Grad17Acc(c, k, ix) == IF k = 0 THEN 1 ELSE Grad17Acc(c, k - 1, ix) * Term(c, k, ix[k])
Grad17(ix) == << Grad17Acc(1, 2, ix), Grad17Acc(2, 2, ix) >>
Grad(w, ix) == IF w.std = 20 THEN Grad20(ix) ELSE Grad17(ix)

(*** storage: a 2 x 2 array whose content is arbitrary until written ***)
Addr(i, j) == 2 * i + j
InRange(i, j) == i \in 0..1 /\ j \in 0..1
Fetch(w, m, i, j) == IF w.check /\ ~InRange(i, j) THEN "abort" ELSE m[Addr(i, j)]
Mems(w) == IF w.when = "ct" THEN {[a \in 0..3 |-> 0]} ELSE [0..3 -> {0, 5}]      \* constant evaluation has no indeterminate storage

Init == /\ wa \in Ways /\ wb \in Ways /\ ma \in Mems(wa) /\ mb \in Mems(wb)
        /\ defd = {} /\ oa = <<>> /\ ob = <<>> /\ n = 0
Obs(x, y) == oa' = Append(oa, x) /\ ob' = Append(ob, y)
Next ==
  /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED <<wa, wb>>
  /\ \/ \E f \in DOMAIN NodeCT : \E i \in 0..(Len(NodeCT[f]) - 1) : Obs(Node(wa, f, i), Node(wb, f, i)) /\ UNCHANGED <<ma, mb, defd>>
     \/ \E f \in DOMAIN WCT : \E i \in 0..(Len(WCT[f]) - 1) : Obs(Weight(wa, f, i), Weight(wb, f, i)) /\ UNCHANGED <<ma, mb, defd>>
     \/ \E ix \in (1..2) \X (1..2) : Obs(Grad(wa, ix), Grad(wb, ix)) /\ UNCHANGED <<ma, mb, defd>>
     \/ \E i, j \in 0..1, v \in {1, 2} : /\ ma' = [ma EXCEPT ![Addr(i, j)] = v] /\ mb' = [mb EXCEPT ![Addr(i, j)] = v]
                                         /\ defd' = defd \cup {Addr(i, j)} /\ UNCHANGED <<oa, ob>>
     \/ \E i, j \in 0..1 : Addr(i, j) \in defd /\ Obs(Fetch(wa, ma, i, j), Fetch(wb, mb, i, j)) /\ UNCHANGED <<ma, mb, defd>>
     \* an accumulating operation into an output object: it clears its output before it accumulates
     \/ \E v \in {1, 2} : /\ ma' = [a \in 0..3 |-> 0 + v * a] /\ mb' = [a \in 0..3 |-> 0 + v * a] /\ defd' = 0..3 /\ UNCHANGED <<oa, ob>>
Spec == Init /\ [][Next]_vars
SameObservations == oa = ob
DefinedAgrees == \A a \in defd : ma[a] = mb[a]
View == <<wa, wb, ma, mb, defd, oa = ob, n>>
=============================================================================
