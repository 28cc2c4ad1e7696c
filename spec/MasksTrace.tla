----------------------------- MODULE MasksTrace -----------------------------
(* Recorded masked writes and reads, each judged by the operators of Masks.  `cur` is the stored message. *)
EXTENDS Masks, TraceLib
Schemas == JsonDeserialize(IOEnv.SCHEMAS)
ASSUME InitRegs
VARIABLES s, l, cur
vars == <<s, l, cur>>
Ev == Sessions[s].ev[l]
Is(e) == l <= Len(Sessions[s].ev) /\ Ev.e = e /\ l' = l + 1 /\ s' = s
NilMsg == [x \in {"!nil"} |-> <<>>]

Init == s \in 1..NSessions /\ l = 1 /\ cur = NilMsg
\* the stored message is (re)set, with no write under test
Store == Is("store") /\ cur' = Ev.m

\* effective writable fields of this call
Wr == IF Ev.allw \/ Ev.W.nil THEN [nil |-> TRUE, p |-> <<>>] ELSE [nil |-> FALSE, p |-> Ev.W.p \o Ev.X]
Update ==
  /\ Is("update")
  /\ LET S == Schemas[Ev.schema]
     IN /\ Ev.panic = ""
        /\ IF Ev.code = "OK"
           THEN /\ ~MustReject(S, Ev.M, Wr)
                /\ ValidMask(S, Ev.R)
                /\ Ev.ret = Ev.post
                /\ IsUpdate(S, cur, Ev.src, Ev.M, Wr, Ev.R, Ev.post)
           ELSE /\ ~MustAccept(S, Ev.M, Wr, Ev.R)
                /\ (MustReject(S, Ev.M, Wr) /\ ValidMask(S, Ev.R)) => Ev.code = "InvalidArgument"
                /\ Ev.post = cur
        /\ cur' = Ev.post

\* a read with mask M that returned Ev.r; the store and the argument are as before afterwards
Read ==
  /\ Is("read")
  /\ LET S == Schemas[Ev.schema]
     IN /\ Ev.panic = ""
        /\ Ev.after = cur
        /\ ("validate" \in DOMAIN Ev) => (Ev.validate = (IF ValidMask(S, Ev.M) THEN "OK" ELSE "InvalidArgument"))
        /\ ValidMask(S, Ev.M) => IsProjection(cur, Ev.M, Ev.r)
  /\ cur' = cur
Next == Store \/ Update \/ Read
Spec == Init /\ [][Next]_vars
Progress == Note(s, l)
=============================================================================
