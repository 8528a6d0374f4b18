---------------------------- MODULE DeviceModel -----------------------------
(* The wrapper as a sequence of device calls, beside a device that runs kernels on its own time, implements the atomic launches of KernelOps. *)
EXTENDS DeviceOps
CONSTANTS MaxLen, Wait          \* Wait = FALSE: a wrapper that does not wait for the device (not an implementation)
VARIABLES host, mem, pend, pc, req, err, said, ended, log, abs, n
vars == <<host, mem, pend, pc, req, err, said, ended, log, abs, n>>
Sizes == <<2, 1>>
Undefined == -99999
Ops == [o : {"plain"}, a : {1, 2}, id : {1}, ab : BOOLEAN] \cup [o : {"data"}, b : 1..2, off : {0}, fn : {1, 3, 5}, a : {1}, id : {2}, ab : BOOLEAN]
       \cup [o : {"data"}, b : {1}, off : {1}, fn : {1, 2}, a : {2}, id : {3}, ab : {FALSE}]
Init == host = KStart(Sizes) /\ mem = <<>> /\ pend = <<>> /\ pc = "idle" /\ req = [o |-> "none", ab |-> FALSE] /\ err = FALSE /\ said = FALSE /\ ended = FALSE /\ log = <<>> /\ abs = KStart(Sizes) /\ n = 0
Part(op) == SubSeq(host.bufs[op.b], op.off + 1, Len(host.bufs[op.b]))
Call == pc = "idle" /\ ~ended /\ n < MaxLen /\ n' = n + 1 /\ err' = FALSE /\ said' = FALSE
        /\ \E op \in Ops : req' = op /\ pc' = (IF op.o = "data" THEN "alloc" ELSE "launch")
        /\ UNCHANGED <<host, mem, pend, ended, log, abs>>
Go(from, to) == pc = from /\ pc' = to
Alloc == Go("alloc", "in") /\ mem' = (n :> [q \in 1..Len(Part(req)) |-> Undefined]) @@ mem /\ UNCHANGED <<host, pend, req, err, said, ended, log, abs, n>>
CopyIn == Go("in", "launch") /\ mem' = [mem EXCEPT ![n] = Part(req)] /\ UNCHANGED <<host, pend, req, err, said, ended, log, abs, n>>
Launch == Go("launch", IF Wait THEN "sync" ELSE IF req.o = "data" THEN "out" ELSE "say") /\ pend' = Append(pend, req) /\ UNCHANGED <<host, mem, req, err, said, ended, log, abs, n>>
\* the device, at any time
Run == pend # <<>> /\ pend' = Tail(pend) /\ UNCHANGED <<pc, req, said, ended, abs, n>>
       /\ LET k == Head(pend) IN
          \/ /\ log' = Append(log, k.id) /\ err' = err
             /\ IF k.o = "data" THEN n \in DOMAIN mem /\ mem' = [mem EXCEPT ![n] = Effect(k.fn, mem[n], k.a)] /\ host' = host
                ELSE host' = [host EXCEPT !.sum = KApply(host, k).sum] /\ mem' = mem
          \/ err' = TRUE /\ UNCHANGED <<host, mem, log>>
Sync == pend = <<>> /\ Go("sync", IF req.o = "data" THEN "out" ELSE "say") /\ UNCHANGED <<host, mem, pend, req, err, said, ended, log, abs, n>>
CopyOut == Go("out", "free") /\ host' = [host EXCEPT !.bufs[req.b] = SubSeq(@, 1, req.off) \o mem[n]] /\ UNCHANGED <<mem, pend, req, err, said, ended, log, abs, n>>
Free == Go("free", "say") /\ mem' = [d \in DOMAIN mem \ {n} |-> mem[d]] /\ UNCHANGED <<host, pend, req, err, said, ended, log, abs, n>>
Say == Go("say", "idle") /\ said' = err /\ ended' = (err /\ req.ab)
       /\ abs' = (IF err THEN [abs EXCEPT !.bufs = host.bufs] ELSE KApply(abs, req))
       /\ UNCHANGED <<host, mem, pend, req, err, log, n>>
Next == Call \/ Alloc \/ CopyIn \/ Launch \/ Run \/ Sync \/ CopyOut \/ Free \/ Say
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Idle == pc = "idle"
Same == Idle => host.bufs = abs.bufs /\ host.sum = abs.sum /\ log = abs.log       \* launches are atomic to the caller
Clean == Idle => mem = <<>> /\ pend = <<>>
Told == Idle => said = err /\ (ended <=> err /\ n > 0 /\ req.ab)
Defined == \A b \in 1..2 : \A q \in DOMAIN host.bufs[b] : host.bufs[b][q] # Undefined
OneAtATime == Len(pend) <= 1 /\ \A d \in DOMAIN mem : d = n
Returns == (pc # "idle") ~> (pc = "idle")
=============================================================================
