----------------------------- MODULE IsolationTrace -----------------------------
(* Messages that crossed the boundary of the real library (C07). What is read of a device and what messages look like
   are numbers: equal if and only if the messages are. *)
EXTENDS Isolation, TraceLib
ASSUME InitRegs
VARIABLES s, l, state, seen
vars == <<s, l, state, seen>>
Ev == Sessions[s].ev[l]
Is(e) == l <= Len(Sessions[s].ev) /\ Ev.e = e /\ l' = l + 1 /\ s' = s
Init == s \in 1..NSessions /\ l = 1 /\ state = 0 /\ seen = <<>>
Start == Is("start") /\ state' = Ev.state /\ seen' = Ev.now
Op == /\ Is("op")
      /\ Kept(seen, Ev.now)
      /\ Ev.ro => Ev.state = state
      /\ state' = Ev.state /\ seen' = Ev.now
Mutate == /\ Is("mutate")
          /\ KeptBut(seen, Ev.now, Ev.i + 1)
          /\ Ev.state = state
          /\ state' = state /\ seen' = Ev.now
Next == Start \/ Op \/ Mutate
Spec == Init /\ [][Next]_vars
Progress == Note(s, l)
=============================================================================
