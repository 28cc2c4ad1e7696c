-------------------------------- MODULE ShutTrace --------------------------------
(* Subscriptions to resources and trait models that are cancelled at some moment (C10).  What arrives is judged
   elsewhere; here: when streams end, that writers and the other subscribers are not held up, that nothing is left.
   Events that report somebody stuck ("writers stuck", ...) have no action. *)
EXTENDS Integers, Sequences, FiniteSets, TraceLib
ASSUME InitRegs
VARIABLES sub, rem, s, l
vars == <<sub, rem, s, l>>
Ev == Sessions[s].ev[l]
Is(e) == l <= Len(Sessions[s].ev) /\ Ev.e = e /\ l' = l + 1 /\ s' = s
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
\* rem: removals under way, by writer: the item, and the subscriptions that were there when it started
Init == s \in 1..NSessions /\ l = 1 /\ sub = [x \in {} |-> 0] /\ rem = [x \in {} |-> 0]
\* id: of a single item, or ""; reads: it keeps receiving; bp: with backpressure
\* may: a removal of its item could have been seen; must: one was
Sub == /\ Is("sub")
       /\ sub' = Put(sub, Ev.k, [id |-> Ev.id, reads |-> Ev.reads, bp |-> Ev.bp, st |-> "open", ready |-> FALSE,
                                 may |-> Ev.id # "" /\ \E w \in DOMAIN rem : rem[w].id = Ev.id, must |-> FALSE])
       /\ UNCHANGED rem
Subbed == Is("subbed") /\ sub' = [sub EXCEPT ![Ev.k].ready = TRUE] /\ UNCHANGED rem
Cancel == /\ Is("cancel") /\ sub' = [sub EXCEPT ![Ev.k].st = IF @ = "open" THEN "cancelled" ELSE @] /\ UNCHANGED rem
Remove == /\ Is("remove")
          /\ rem' = Put(rem, Ev.w, [id |-> Ev.id, ks |-> {k \in DOMAIN sub : sub[k].id = Ev.id /\ sub[k].ready}])
          /\ sub' = [k \in DOMAIN sub |-> IF sub[k].id = Ev.id THEN [sub[k] EXCEPT !.may = TRUE] ELSE sub[k]]
Removed == /\ Is("removed")
           /\ sub' = [k \in DOMAIN sub |-> IF Ev.ok /\ k \in rem[Ev.w].ks THEN [sub[k] EXCEPT !.must = TRUE] ELSE sub[k]]
           /\ rem' = [w \in DOMAIN rem \ {Ev.w} |-> rem[w]]
\* the channel closed, in time: only when cancelled or when its item was removed
Closed == /\ Is("closed") /\ Ev.intime
          /\ sub[Ev.k].st = "cancelled" \/ (sub[Ev.k].st = "open" /\ sub[Ev.k].id # "" /\ sub[Ev.k].may)
          /\ sub' = [sub EXCEPT ![Ev.k].st = "closed"] /\ UNCHANGED rem
\* a write returned; it may only have had to wait for an open subscriber that does not receive
Wrote == /\ Is("wrote")
         /\ IF Ev.slow THEN \E k \in DOMAIN sub : sub[k].st = "open" /\ sub[k].bp /\ ~sub[k].reads ELSE TRUE
         /\ UNCHANGED <<sub, rem>>
\* an open subscriber that receives got the last write, or its channel closed; a subscription to an item that was
\* removed does not get what was written to it later
Caught == /\ Is("caught") /\ Ev.intime
          /\ IF Ev.open THEN ~(sub[Ev.k].must /\ sub[Ev.k].bp) ELSE TRUE
          /\ UNCHANGED <<sub, rem>>
End == /\ Is("end") /\ Ev.leaked = 0 /\ Ev.panics = <<>> /\ \A k \in DOMAIN sub : sub[k].st = "closed"
       /\ UNCHANGED <<sub, rem>>
Next == Sub \/ Subbed \/ Cancel \/ Remove \/ Removed \/ Closed \/ Wrote \/ Caught \/ End
Spec == Init /\ [][Next]_vars
Progress == Note(s, l)
=============================================================================
