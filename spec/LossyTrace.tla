----------------------------- MODULE LossyTrace -----------------------------
(* One writer, subscribers that receive when the recorded run says so.  A write is recorded before it is called. *)
EXTENDS Lossy, TraceLib
ASSUME InitRegs
VARIABLES m, pend, held, seeds, s, l
vars == <<m, pend, held, seeds, s, l>>
\* per subscriber k: pend[k]: id -> changes not yet delivered; held[k]: id -> value; seeds[k]: ids of seeds not yet received
Cfg == Sessions[s].cfg
Ev == Sessions[s].ev[l]
Is(e) == l <= Len(Sessions[s].ev) /\ Ev.e = e /\ l' = l + 1 /\ s' = s
SeqSet(q) == {q[i] : i \in DOMAIN q}
Fn(D, v) == [x \in D |-> v]
Opt(f, id) == IF id \in DOMAIN f THEN <<f[id]>> ELSE <<>>
Ids == SeqSet(Cfg.ids)
Ext(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Init == /\ s \in 1..NSessions /\ l = 1 /\ m = Cfg.init
        /\ pend = [x \in {} |-> 0] /\ held = pend /\ seeds = pend
\* k: [k, bp, only, plain]: plain streams (Value, PullID of id k.id) carry values only
Sub == /\ Is("sub")
       /\ pend' = Ext(pend, Ev.k, Fn(Ids, <<>>))
       /\ held' = Ext(held, Ev.k, IF Ev.only THEN m ELSE [x \in {} |-> 0])
       /\ seeds' = Ext(seeds, Ev.k, IF Ev.only THEN <<>> ELSE SelectSeq(Cfg.ids, LAMBDA x : x \in DOMAIN m /\ (Ev.id = "" \/ x = Ev.id)))
       /\ UNCHANGED m
Write == /\ Is("write")
         /\ LET c == [id |-> Ev.id, old |-> Opt(m, Ev.id), new |-> Ev.new, time |-> Ev.time]
            IN IF c.old = <<>> /\ c.new = <<>> THEN UNCHANGED <<m, pend>>
               ELSE /\ m' = HoldF(m, Ev.id, Ev.new)
                    /\ pend' = [k \in DOMAIN pend |-> [pend[k] EXCEPT ![Ev.id] = Append(@, c)]]
         /\ UNCHANGED <<held, seeds>>
\* the call returned, and without waiting for any subscriber that is not receiving
Ret == Is("ret") /\ Ev.code = "OK" /\ ~Ev.slow /\ UNCHANGED <<m, pend, held, seeds>>

Recv == /\ Is("recv") /\ Ev.seed = (seeds[Ev.k] # <<>>)
        /\ IF Ev.seed
           THEN /\ Ev.id = seeds[Ev.k][1]
                /\ Ev.new # <<>>
                \* what was there when it subscribed: what is there now unless that is on its way
                /\ Ev.new = (IF pend[Ev.k][Ev.id] # <<>> THEN pend[Ev.k][Ev.id][1].old ELSE Opt(m, Ev.id))
                /\ seeds' = [seeds EXCEPT ![Ev.k] = Tail(@)]
                /\ held' = [held EXCEPT ![Ev.k] = HoldF(@, Ev.id, Ev.new)]
                /\ UNCHANGED pend
           ELSE /\ \E n \in 1..Len(pend[Ev.k][Ev.id]) :
                     LET es == SubSeq(pend[Ev.k][Ev.id], 1, n)
                         net == Net(es)
                     IN /\ Ev.bp => n = 1
                        /\ IF Ev.plain THEN Ev.new # <<>> /\ es[n].new = Ev.new /\ es[n].time = Ev.time
                           ELSE /\ net # <<>> /\ net[1].kind = Ev.kind /\ net[1].new = Ev.new /\ net[1].old = Ev.old
                                /\ net[1].time = Ev.time
                                /\ Ev.old = Opt(held[Ev.k], Ev.id)
                        /\ pend' = [pend EXCEPT ![Ev.k][Ev.id] = SubSeq(@, n + 1, Len(@))]
                /\ held' = [held EXCEPT ![Ev.k] = HoldF(@, Ev.id, Ev.new)]
                /\ UNCHANGED seeds
        /\ UNCHANGED m
\* nothing more came: everything was delivered, or cancelled out
Nothing(es) == IF es = <<>> THEN TRUE ELSE Net(es) = <<>>
Drained == /\ Is("drained") /\ ~Ev.stuck
           /\ seeds[Ev.k] = <<>>
           /\ IF Ev.id = "" THEN /\ \A id \in Ids : Nothing(pend[Ev.k][id])
                                 /\ held[Ev.k] = m
              ELSE pend[Ev.k][Ev.id] = <<>>
           /\ UNCHANGED <<m, pend, held, seeds>>
\* a single item stream ends because of a removal
Ended == /\ Is("ended") /\ Ev.id # "" /\ \E i \in DOMAIN pend[Ev.k][Ev.id] : pend[Ev.k][Ev.id][i].new = <<>>
         /\ UNCHANGED <<m, pend, held, seeds>>
\* with backpressure and nobody receiving, writers wait: they are ahead by what is in the hands of a few goroutines at most
Idle == /\ Is("idle") /\ Ev.returned <= 4 /\ UNCHANGED <<m, pend, held, seeds>>
\* ... but a write to a Value gives up: an error, after about five seconds
GaveUp == /\ Is("gaveup") /\ Ev.code # "OK" /\ Ev.code # "hang" /\ Ev.ms >= 4000 /\ Ev.ms <= Ev.most
          /\ UNCHANGED <<m, pend, held, seeds>>
Next == Sub \/ Write \/ Ret \/ Recv \/ Drained \/ Ended \/ Idle \/ GaveUp
Spec == Init /\ [][Next]_vars
Progress == Note(s, l)
=============================================================================
