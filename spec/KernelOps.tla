----------------------------- MODULE KernelOps ------------------------------
(***************************************************************************)
(* Kernels launched one after another on the host.  State: the buffers the *)
(* kernels work on, a log of what ran (in order), and what the kernels     *)
(* captured by reference.  A launch runs its kernel once, at the launch.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
KStart(sizes) == [bufs |-> [b \in 1..Len(sizes) |-> [q \in 1..sizes[b] |-> 10 * b + q]], log |-> <<>>, sum |-> 0]
\* what kernel `fn` does to the data it is given (a sequence of numbers)
Effect(fn, data, a) ==
  CASE fn = 1 -> [q \in DOMAIN data |-> data[q] + a]
    [] fn = 2 -> [q \in DOMAIN data |-> IF q = Len(data) THEN a ELSE data[q]]
    [] fn = 3 -> [q \in DOMAIN data |-> data[Len(data) + 1 - q]]
    [] fn = 4 -> data
    [] fn = 5 -> [q \in DOMAIN data |-> IF q = 1 THEN data[1] * 2 - a ELSE data[q]]
\* launches: "plain" kernels change what they captured, "data" kernels change the data from an offset on
KApply(s, op) ==
  CASE op.o = "plain" -> [s EXCEPT !.log = Append(@, op.id), !.sum = 3 * (@ % 1000) + op.a]
    [] op.o = "data" -> LET d == s.bufs[op.b]
                            part == SubSeq(d, op.off + 1, Len(d))
                            new == Effect(op.fn, part, op.a)
                        IN [s EXCEPT !.log = Append(@, op.id), !.bufs[op.b] = SubSeq(d, 1, op.off) \o new]
    [] op.o = "both" -> \* a plain kernel that also changes a buffer it captured
                        [s EXCEPT !.log = Append(@, op.id), !.sum = 3 * (@ % 1000) + op.a, !.bufs[op.b] = Effect(op.fn, @, op.a)]
    [] op.o = "null" -> [s EXCEPT !.log = Append(@, op.id)]
=============================================================================
