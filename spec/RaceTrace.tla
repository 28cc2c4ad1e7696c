------------------------------ MODULE RaceTrace ------------------------------
(* Sessions recorded while goroutines use the library at once (C11).  Goroutine g starts with a program of operations
   (RaceMC's kinds) and ends; "detector" counts what the race detector, which keeps the happens-before order
   of Race on the execution itself, saw used without synchronisation meanwhile: no behaviour of Race has any (NoRace), so neither
   is there an action for an event "race". *)
EXTENDS TraceLib
ASSUME InitRegs
VARIABLES running, s, l
vars == <<running, s, l>>
Cur == Sessions[s].ev
Ev == Cur[l]
Is(e) == l <= Len(Cur) /\ Ev.e = e /\ l' = l + 1 /\ s' = s
Kinds == {"get", "write", "create", "delete", "pull", "rpc", "stream", "new"}
Init == s \in 1..NSessions /\ l = 1 /\ running = {}
Start == /\ Is("start") /\ Ev.g \notin running
         /\ \A i \in 1..Len(Ev.kinds) : Ev.kinds[i] \in Kinds
         /\ running' = running \cup {Ev.g}
End == Is("end") /\ Ev.g \in running /\ running' = running \ {Ev.g}
Detector == Is("detector") /\ Ev.races = 0 /\ UNCHANGED running
\* a call into the library panicked, or never returned: other properties are about that
Given == Is("gaveup") /\ running' = {}
Next == Start \/ End \/ Detector \/ Given
Spec == Init /\ [][Next]_vars
Progress == Note(s, l)
View == vars
==============================================================================
