------------------------------ MODULE PkgModel ------------------------------
(***************************************************************************)
(* All short histories with one build directory and two prefixes.          *)
(***************************************************************************)
EXTENDS PkgOps, FiniteSets
CONSTANTS MaxLen, Names
VARIABLES s, last, n
\* last: for each prefix, the header it was installed from (a history variable)
Init == s = PkgInit(1, 2) /\ last = <<None, None>> /\ n = 0
Lists == {<<>>} \cup {<< <<x, v>> >> : x \in Names, v \in BOOLEAN} \cup {<< <<x, TRUE>>, <<y, v>> >> : x \in Names, y \in Names, v \in BOOLEAN}
Confs == [o : {"conf"}, b : {1}, sets : Lists, unset : {<<>>} \cup {<<x>> : x \in Names}, norm : {<<>>} \cup {<< <<x, v>> >> : x \in Names, v \in BOOLEAN}, cv : {<<>>, <<12>>, <<11, 8, 1>>}]
Wraps == [o : {"wrap"}, b : {1}, p : 1..2, host : {<<>>} \cup {<< <<x, v>> >> : x \in Names, v \in BOOLEAN}, sets : {<<>>} \cup {<< <<x, v>> >> : x \in Names, v \in BOOLEAN}, cv : {<<>>, <<12>>}]
Ops == [o : {"install"}, b : {1}, p : 1..2] \cup [o : {"move"}, p : 1..2, q : 1..2] \cup [o : {"drop"}, b : {1}]
Do(op) ==
  /\ s' = PkgApply(s, op)
  /\ last' = CASE op.o = "install" /\ s.b[1].hdr # None -> [last EXCEPT ![op.p] = s.b[1].hdr]
               [] op.o = "move" /\ op.p # op.q -> [last EXCEPT ![op.q] = last[op.p], ![op.p] = None]
               [] op.o = "wrap" -> [last EXCEPT ![op.p] = None]
               [] OTHER -> last
Next == n < MaxLen /\ n' = n + 1 /\ \E op \in Confs \cup Wraps \cup Ops : Do(op)
Headers == {s.b[1].hdr, s.p[1], s.p[2]} \ {None}
Exclusive == \A h \in Headers : ~(h.cuda /\ h.hip)
Versioned == \A h \in Headers : h.cuda \/ h.cudaver = <<0, 0>>
Kept == \A q \in 1..2 : s.p[q] = last[q]                       \* what a client finds is what was installed there, whatever happened to the build since
\* the header says what was asked for last, if that is possible
Current == LET b == s.b[1] IN /\ Possible(b) /\ (b.cache # NoOpt \/ b.norm # NoOpt \/ b.to # 0) => b.hdr = Header(b)
                              /\ ~Possible(b) => b.hdr = None
\* an option stays as it was given until it is given again
Sticky == \A x \in Names : LET b == s.b[1] IN Configured(b, [sets |-> <<>>, unset |-> <<>>, norm |-> <<>>, cv |-> <<>>]).cache = b.cache
\* the order of versions
Vs == {<<>>} \cup {<<a>> : a \in 0..2} \cup {<<a, b>> : a \in 0..2, b \in 0..2}
V3 == {<<a, b, c>> : a \in 0..2, b \in 0..2, c \in 0..2}
ASSUME \A v \in V3 : Compatible(v, v) /\ Compatible(<<>>, v) /\ Compatible(<<v[1]>>, v) /\ Compatible(<<v[1], v[2]>>, v)
ASSUME \A v \in V3, w \in V3 : Compatible(v, w) /\ Compatible(w, v) => v = w
ASSUME \A u \in V3, v \in V3, w \in V3 : Compatible(u, v) /\ Compatible(v, w) => Compatible(u, w)
ASSUME \A r \in Vs \cup V3, v \in V3 : Compatible(r, v) => r = <<>> \/ r[1] = v[1]
=============================================================================
