------------------------------ MODULE PubsubTrace ------------------------------
(* Recorded runs of concurrent writers and subscribers.  Commits are placed by linearizing the calls (StoreConc!Effect);
   a subscription's starting point lies between its call and its return; once writers stopped, every subscriber's
   folded view must equal the contents. *)
EXTENDS StoreConc, TraceLib
ASSUME InitRegs
VARIABLES m, pend, spend, snap, s, l
vars == <<m, pend, spend, snap, s, l>>
Evs == Sessions[s].ev
Ev == Evs[l]
Is(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ s' = s
NoProc == [x \in {} |-> 0]
Ext(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Init == s \in 1..NSessions /\ l = 1 /\ m = Sessions[s].cfg.init /\ pend = NoProc /\ spend = {} /\ snap = NoProc

Inv == /\ Is("inv")
       /\ pend' = Ext(pend, Ev.p, [at |-> l, lin |-> FALSE, dirty |-> FALSE])
       /\ UNCHANGED <<m, spend, snap>>
Ret == /\ Is("ret") /\ Ev.p \in DOMAIN pend /\ pend[Ev.p].lin
       /\ pend' = Del(pend, Ev.p)
       /\ UNCHANGED <<m, spend, snap>>
RaceCodes == {"Aborted", "Unavailable", "AlreadyExists", "FailedPrecondition", "NotFound"}
Choice == l <= Len(Evs) /\ Ev.e \in {"ret", "subret"}
Lin(p) ==
  /\ Choice /\ ~pend[p].lin
  /\ LET c == Evs[pend[p].at]
     IN \/ \E o \in Effect(m, c.op) :
             /\ o.code = c.code
             /\ c.code = "OK" => c.ret = o.ret
             /\ m' = o.m
             /\ pend' = [x \in DOMAIN pend |->
                  IF x = p THEN [pend[x] EXCEPT !.lin = TRUE]
                  ELSE IF o.code = "OK" /\ Evs[pend[x].at].op.id = c.op.id
                       THEN [pend[x] EXCEPT !.dirty = TRUE] ELSE pend[x]]
        \/ /\ c.code \in RaceCodes /\ pend[p].dirty
           /\ pend' = [pend EXCEPT ![p].lin = TRUE]
           /\ UNCHANGED m
  /\ UNCHANGED <<s, l, spend, snap>>
\* where a subscription starts only matters if it gets no seed
Sub == /\ Is("sub") /\ spend' = (IF Ev.only THEN spend \cup {Ev.k} ELSE spend) /\ UNCHANGED <<m, pend, snap>>
Snap(k) == /\ Choice /\ snap' = Ext(snap, k, m) /\ spend' = spend \ {k} /\ UNCHANGED <<m, pend, s, l>>
SubRet == /\ Is("subret") /\ Ev.k \notin spend /\ UNCHANGED <<m, pend, spend, snap>>

Proj(mask, v) == CASE mask = "a" -> <<v[1], 0>> [] mask = "b" -> <<0, v[2]>> [] OTHER -> v
ProjM(mask, f) == [x \in DOMAIN f |-> Proj(mask, f[x])]
Only(id, f) == IF id = "" THEN f ELSE [x \in DOMAIN f \cap {id} |-> f[x]]
RECURSIVE Fold(_, _)
Fold(f, es) == IF es = <<>> THEN f
               ELSE LET e == Head(es) IN Fold(IF e.rm THEN Del(f, e.id) ELSE Ext(f, e.id, e.v), Tail(es))
Deleted(id) == \E i \in DOMAIN Evs : Evs[i].e = "inv" /\ Evs[i].op.op = "delete" /\ Evs[i].op.id = id /\ Evs[i].code = "OK"
View(k) == Fold(IF k.only THEN Only(k.id, ProjM(k.mask, snap[k.k])) ELSE [x \in {} |-> <<>>], k.events)
\* a single item subscription is over once its item was removed
Converged(k, mm) == IF k.closed THEN k.id # "" /\ Deleted(k.id)
                ELSE /\ k.sentinel /\ ~k.stuck
                     \* a lossy stream of one item may replace its last event with the sentinel; the driver first waits for
                     \* the subscriber to hold the final value (not stuck), if it can hold it without an event
                     /\ \/ ~k.bp /\ (k.id # "" \/ Sessions[s].cfg.kind = "value")
                        \/ View(k) = Only(k.id, ProjM(k.mask, mm))
Quiet == /\ Is("quiet") /\ Ev.m = m /\ \A i \in DOMAIN Ev.subs : Converged(Ev.subs[i], m)
         /\ UNCHANGED <<m, pend, spend, snap>>
\* many calls, too many to place: only the views are compared with the contents (no updates-only subscribers here)
Storm == /\ Is("storm") /\ \A i \in DOMAIN Ev.subs : Converged(Ev.subs[i], Ev.m)
         /\ UNCHANGED <<m, pend, spend, snap>>
Next == Storm \/ Inv \/ Ret \/ Sub \/ SubRet \/ Quiet \/ (\E p \in DOMAIN pend : Lin(p)) \/ (\E k \in spend : Snap(k))
Spec == Init /\ [][Next]_vars
Progress == Note(s, l)
=============================================================================
