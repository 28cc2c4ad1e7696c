-------------------------------- MODULE Pubsub --------------------------------
(* How commits reach subscribers: writers read, save under the data lock and publish afterwards; a subscriber takes a
   snapshot and registers a listener.  The design is parameterised by the decisions a subscriber's view depends on:

     Ordered       the place of an event in each listener's stream is reserved while the data lock is held
     LockedListen  snapshot and registration happen under one read lock, excluding saves

   Checked: Converged (once everything is delivered each view equals the contents), InOrder (what a subscriber gets
   are increasing versions, all newer than its snapshot), and, Ordered, that every commit after the snapshot arrives
   exactly once.  Dropping either decision violates Converged (PubsubBad*.cfg).  Every complete behaviour of the
   undisciplined design is printed as a schedule for the driver to force on the real code. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Writers, Subs, Ids, Ordered, LockedListen, WithRead, Emit

VARIABLES m, ver, pc, plan, val, spc, snap, reg, queue, got, sched
vars == <<m, ver, pc, plan, val, spc, snap, reg, queue, got, sched>>
View == IF Emit THEN <<pc, spc, sched>> ELSE <<m, ver, pc, plan, val, spc, snap, reg, queue, got>>

Init == /\ m = [i \in Ids |-> 0] /\ ver = 0
        /\ plan \in [Writers -> Ids]
        /\ val = [w \in Writers |-> 0]
        /\ pc = [w \in Writers |-> IF WithRead THEN "read" ELSE "save"]
        /\ spc = [k \in Subs |-> "snap"] /\ snap = [k \in Subs |-> m]
        /\ reg = {}
        /\ queue = [k \in Subs |-> <<>>]     \* reserved, not yet delivered
        /\ got = [k \in Subs |-> <<>>]
        /\ sched = <<>>
Log(p, n) == sched' = IF Emit THEN sched \o [i \in 1..n |-> p] ELSE sched
Locked == LockedListen /\ \E k \in Subs : spc[k] = "listen"
Event(w, v) == [w |-> w, id |-> plan[w], v |-> v]

Read(w) == /\ pc[w] = "read" /\ pc' = [pc EXCEPT ![w] = "save"]
           /\ Log(w, 1)
           /\ UNCHANGED <<m, ver, plan, val, spc, snap, reg, queue, got>>
\* every commit stores a new version of the planned id
Save(w) == /\ pc[w] = "save" /\ ~Locked
           /\ ver' = ver + 1 /\ val' = [val EXCEPT ![w] = ver + 1]
           /\ m' = [m EXCEPT ![plan[w]] = ver + 1]
           /\ pc' = [pc EXCEPT ![w] = "publish"]
           /\ queue' = [k \in Subs |-> IF Ordered /\ k \in reg THEN Append(queue[k], Event(w, ver + 1)) ELSE queue[k]]
           /\ Log(w, IF WithRead THEN 1 ELSE 2)
           /\ UNCHANGED <<plan, spc, snap, reg, got>>
Mine(w, q) == SelectSeq(q, LAMBDA e : e.w = w)
\* publish to the listeners reserved at commit, each in the reserved order ...
Deliver(w, k) ==
  /\ Ordered /\ pc[w] = "publish"
  /\ queue[k] # <<>> /\ Head(queue[k]).w = w
  /\ got' = [got EXCEPT ![k] = Append(@, Head(queue[k]))]
  /\ queue' = [queue EXCEPT ![k] = Tail(@)]
  /\ Log(w, 1)
  /\ UNCHANGED <<m, ver, pc, plan, val, spc, snap, reg>>
Published(w) ==
  /\ Ordered /\ pc[w] = "publish" /\ \A k \in Subs : Mine(w, queue[k]) = <<>>
  /\ pc' = [pc EXCEPT ![w] = "done"]
  /\ Log(w, 1)
  /\ UNCHANGED <<m, ver, plan, val, spc, snap, reg, queue, got>>
\* ... or to whoever is registered by now
PublishNow(w) ==
  /\ ~Ordered /\ pc[w] = "publish"
  /\ got' = [k \in Subs |-> IF k \in reg THEN Append(got[k], Event(w, val[w])) ELSE got[k]]
  /\ pc' = [pc EXCEPT ![w] = "done"]
  /\ Log(w, 1)
  /\ UNCHANGED <<m, ver, plan, val, spc, snap, reg, queue>>
Snap(k) == /\ spc[k] = "snap" /\ spc' = [spc EXCEPT ![k] = "listen"]
           /\ snap' = [snap EXCEPT ![k] = m]
           /\ Log(k, 1)
           /\ UNCHANGED <<m, ver, pc, plan, val, reg, queue, got>>
Listen(k) == /\ spc[k] = "listen" /\ spc' = [spc EXCEPT ![k] = "open"]
             /\ reg' = reg \cup {k}
             /\ Log(k, 1)
             /\ UNCHANGED <<m, ver, pc, plan, val, snap, queue, got>>
Next == \/ \E w \in Writers : Read(w) \/ Save(w) \/ Published(w) \/ PublishNow(w) \/ \E k \in Subs : Deliver(w, k)
        \/ \E k \in Subs : Snap(k) \/ Listen(k)
Fair == WF_vars(Next)
Spec == Init /\ [][Next]_vars /\ Fair

RECURSIVE Fold(_, _)
Fold(f, es) == IF es = <<>> THEN f ELSE Fold([f EXCEPT ![Head(es).id] = Head(es).v], Tail(es))
Quiet == (\A w \in Writers : pc[w] = "done") /\ (\A k \in Subs : spc[k] = "open")
Converged == Quiet => \A k \in Subs : Fold(snap[k], got[k]) = m
InOrder == \A k \in Subs : \A i \in 1..(Len(got[k]) - 1) : got[k][i].v < got[k][i + 1].v
SnapVer(k) == CHOOSE v \in {snap[k][i] : i \in Ids} : \A i \in Ids : snap[k][i] <= v
ExactlyOnce == Quiet => \A k \in Subs : /\ \A i \in DOMAIN got[k] : got[k][i].v > SnapVer(k)
                                        /\ Len(got[k]) = ver - SnapVer(k)
Finishes == <>Quiet
EmitSched == (Emit /\ Quiet) => PrintT("SCHED " \o ToJson(sched))
=============================================================================
