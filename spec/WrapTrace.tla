------------------------------ MODULE WrapTrace ------------------------------
(* Calls recorded over the in-process wrapper, and over a gRPC connection to check the specification (C13).
   Every event is a step of both sides, or of one, that was completed before the next. *)
EXTENDS Wrap, TraceLib
ASSUME InitRegs
VARIABLES s, l
vars == <<c, s, l>>
Ev == Sessions[s].ev[l]
Is(e) == l <= Len(Sessions[s].ev) /\ Ev.e = e /\ l' = l + 1 /\ s' = s
Init == s \in 1..NSessions /\ l = 1 /\ c = New("")
Call == Is("call") /\ Ev.got = Ev.md /\ c' = New(Ev.shape)        \* the server has the client's metadata
C2s  == Is("c2s") /\ CanC2S(c) /\ Ev.send = "OK" /\ Ev.recv = Ev.m /\ c' = C2S(c)
HalfE == Is("half") /\ CanHalf(c) /\ Ev.close = "OK" /\ Ev.recv = "EOF" /\ c' = Half(c)
S2c  == Is("s2c") /\ CanS2C(c) /\ Ev.send = "OK" /\ Ev.recv = Ev.m /\ c' = S2C(c)
RespE == Is("resp") /\ CanResp(c) /\ Ev.send = "OK" /\ c' = Resp(c, Ev.m)
\* setting nothing may do or fail as it likes
\* when the client is gone both may fail, and the client sees nothing of it
Seth == /\ Is("seth") /\ CanSrv(c)
        /\ IF Ev.md = Empty \/ c.cend # "" THEN TRUE ELSE Ev.ok = ~c.hdrSent
        /\ c' = IF c.cend = "" THEN SetHdr(c, Ev.md) ELSE c
Sendh == /\ Is("sendh") /\ CanSrv(c)
         /\ IF c.cend # "" THEN TRUE ELSE Ev.ok = ~c.hdrSent
         /\ c' = IF c.cend = "" THEN SendHdr(c, Ev.md) ELSE c
Sett == Is("sett") /\ CanSrv(c) /\ c' = SetTrl(c, Ev.md)
Rhdr == Is("rhdr") /\ CanReadHdr(c) /\ Ev.ok /\ Ev.md = c.hdr /\ c' = ReadHdr(c)
EndE == Is("end") /\ CanEnd(c) /\ Ev.srvdone /\ c' = End(c, Ev.how)  \* the server's context ends
\* after the client is gone the server gets errors; not the end of a stream the client did not end
Srecv == Is("srecv") /\ c.cend # "" /\ Serving(c) /\ Ev.recv # "OK" /\ (c.half \/ Ev.recv # "EOF") /\ UNCHANGED c
Ssend == Is("ssend") /\ c.cend # "" /\ Serving(c) /\ (Ev.send # "OK" \/ Sessions[s].cfg.buffers) /\ UNCHANGED c
Ret  == Is("ret") /\ CanSrv(c) /\ c' = Return(c, StatusOf(Ev.err), Ev.m)
Fin  == Is("fin") /\ Outcome(c, Ev) /\ FinalHdr(c, Ev.hdr) /\ FinalTrl(c, Ev.trl) /\ UNCHANGED c
\* looked at once more
Again == Is("again") /\ Outcome([c EXCEPT !.resp = <<>>], Ev) /\ FinalHdr(c, Ev.hdr) /\ FinalTrl(c, Ev.trl) /\ UNCHANGED c
\* nothing is left; nobody's copy of a message was changed by the other side
Gone == Is("gone") /\ Ev.leaked = 0 /\ Ev.ctxdone /\ Ev.own /\ UNCHANGED c
\* a method called as something it is not: want, have: what streams
Shape == /\ Is("shape") /\ UNCHANGED c
         /\ IF ~Ev.known THEN Ev.code = "Unimplemented"
            ELSE IF Ev.invoked THEN Ev.code \in {"Unimplemented", "Internal"}
            ELSE Ev.code = "Internal"
\* a call made with a context that has ended
Pre == Is("pre") /\ Ev.cls = Ev.how /\ UNCHANGED c
Next == Pre \/ Call \/ C2s \/ HalfE \/ S2c \/ RespE \/ Seth \/ Sendh \/ Sett \/ Rhdr \/ EndE \/ Srecv \/ Ssend \/ Ret \/ Fin \/ Again \/ Gone \/ Shape
Spec == Init /\ [][Next]_vars
Progress == Note(s, l)
=============================================================================
