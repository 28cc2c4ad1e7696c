------------------------------ MODULE CompareTrace ------------------------------
(* Answers of the real comparers, on pairs both ways round and on copies of each message. *)
EXTENDS Compare, TraceLib
ASSUME InitRegs
VARIABLES s, l
vars == <<s, l>>
Ev == Sessions[s].ev[l]
Is(e) == l <= Len(Sessions[s].ev) /\ Ev.e = e /\ l' = l + 1 /\ s' = s
Init == s \in 1..NSessions /\ l = 1
Default == [t |-> "equal", cs |-> <<>>]
\* the specification itself against proto.Equal
Ref == Is("ref") /\ M(Default, Ev.x, Ev.y) = {Ev.xy}
Compared == /\ Is("cmp") /\ Ev.p = ""
            /\ Ev.xy \in M(Ev.c, Ev.x, Ev.y) /\ Ev.yx = Ev.xy
            /\ Ev.xx \in M(Ev.c, Ev.x, Ev.x) /\ Ev.yy \in M(Ev.c, Ev.y, Ev.y)
Next == Ref \/ Compared
Spec == Init /\ [][Next]_vars
Progress == Note(s, l)
=============================================================================
