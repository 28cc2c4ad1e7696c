-------------------------------- MODULE BusTrace --------------------------------
(* Recorded runs of the event bus.  Calls are recorded before they are made and after they return, receptions by the
   receiver, in the order it sees them. *)
EXTENDS Integers, Sequences, FiniteSets, TraceLib
ASSUME InitRegs
VARIABLES lis, closed, base, whole, quit, done, must, got, s, l
vars == <<lis, closed, base, whole, quit, done, must, got, s, l>>
Ev == Sessions[s].ev[l]
Is(e) == l <= Len(Sessions[s].ev) /\ Ev.e = e /\ l' = l + 1 /\ s' = s
E0 == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Init == /\ s \in 1..NSessions /\ l = 1
        /\ lis = E0 /\ closed = {} /\ base = E0 /\ whole = E0 /\ quit = {} /\ done = {} /\ must = E0 /\ got = E0
P == <<Ev.p, Ev.n>>
Listen == /\ Is("listen") /\ lis' = Put(lis, Ev.k, "coming") /\ base' = Put(base, Ev.k, done)
          /\ must' = Put(must, Ev.k, {}) /\ got' = Put(got, Ev.k, <<>>)
          /\ UNCHANGED <<closed, whole, quit, done>>
Listened == /\ Is("listened") /\ lis' = IF lis[Ev.k] = "coming" THEN Put(lis, Ev.k, "open") ELSE lis
            /\ UNCHANGED <<closed, base, whole, quit, done, must, got>>
Cancel == /\ Is("cancel") /\ lis' = Put(lis, Ev.k, "done")
          /\ whole' = [x \in DOMAIN whole |-> whole[x] \ {Ev.k}]
          /\ UNCHANGED <<closed, base, quit, done, must, got>>
Send == /\ Is("send") /\ whole' = Put(whole, P, {k \in DOMAIN lis : lis[k] = "open"})
        /\ UNCHANGED <<lis, closed, base, quit, done, must, got>>
Quit == /\ Is("quit") /\ quit' = quit \cup {P} /\ UNCHANGED <<lis, closed, base, whole, done, must, got>>
Sent == /\ Is("sent") /\ done' = done \cup {P}
        /\ must' = IF Ev.ok \/ P \notin quit
                   THEN [k \in DOMAIN must |-> IF k \in whole[P] THEN must[k] \cup {P} ELSE must[k]] ELSE must
        /\ whole' = Put(whole, P, {})
        /\ UNCHANGED <<lis, closed, base, quit, got>>
Recv == /\ Is("recv") /\ Ev.k \notin closed
        /\ P \in DOMAIN whole /\ P \notin base[Ev.k]
        /\ \A i \in DOMAIN got[Ev.k] : got[Ev.k][i][1] = Ev.p => got[Ev.k][i][2] < Ev.n
        /\ got' = [got EXCEPT ![Ev.k] = Append(@, P)]
        /\ UNCHANGED <<lis, closed, base, whole, quit, done, must>>
\* a channel closes when its listener is cancelled, having received everything sent during its life
Closed == /\ Is("closed") /\ Ev.k \notin closed /\ lis[Ev.k] = "done"
          /\ must[Ev.k] \subseteq {got[Ev.k][i] : i \in DOMAIN got[Ev.k]}
          /\ closed' = closed \cup {Ev.k}
          /\ UNCHANGED <<lis, base, whole, quit, done, must, got>>
\* nothing panicked, nothing is left
End == /\ Is("end") /\ Ev.leaked = 0 /\ Ev.panics = <<>> /\ closed = DOMAIN lis
       /\ UNCHANGED <<lis, closed, base, whole, quit, done, must, got>>
Next == Listen \/ Listened \/ Cancel \/ Send \/ Quit \/ Sent \/ Recv \/ Closed \/ End
Spec == Init /\ [][Next]_vars
Progress == Note(s, l)
=============================================================================
