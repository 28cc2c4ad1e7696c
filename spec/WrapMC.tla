------------------------------- MODULE WrapMC -------------------------------
(* All calls of up to MaxSteps steps: emitted as scripts for both transports.  h is the script. *)
EXTENDS Wrap, TLC, Json
CONSTANTS Shapes, MaxSteps, Emit
VARIABLES h, fin
vars == <<c, h, fin>>
Init == \E s \in Shapes : c = New(s) /\ h = <<>> /\ fin = FALSE
Md == "x-a" :> <<Len(h)>>
Do(step, k) == h' = Append(h, step) /\ c' = k /\ UNCHANGED fin
Ok == [code |-> "OK", msg |-> "", det |-> ""]
Step == /\ Len(h) < MaxSteps
        /\ \/ CanC2S(c) /\ Do("c2s", C2S(c))
           \/ CanHalf(c) /\ Do("half", Half(c))
           \/ CanS2C(c) /\ Do("s2c", S2C(c))
           \/ CanResp(c) /\ Do("resp", Resp(c, "m"))
           \/ CanSrv(c) /\ Do("seth", IF c.cend = "" THEN SetHdr(c, Md) ELSE c)
           \/ CanSrv(c) /\ ~c.hdrSent /\ Do("sendh", IF c.cend = "" THEN SendHdr(c, Md) ELSE c)
           \/ CanSrv(c) /\ Do("sett", SetTrl(c, Md))
           \/ CanReadHdr(c) /\ Do("rhdr", ReadHdr(c))
           \/ CanEnd(c) /\ \E how \in {"cancelled", "deadline"} : Do(how, End(c, how))
           \* after the client is gone
           \/ CanSrv(c) /\ c.cend # "" /\ (ManyReqs(c) \/ ManyResps(c)) /\ h[Len(h)] # "srecv" /\ Do("srecv", c)
           \/ CanSrv(c) /\ c.cend # "" /\ ManyResps(c) /\ h[Len(h)] # "ssend" /\ Do("ssend", c)
\* the server returns at any time, the client looks at the outcome then, or earlier when it gave up itself
Ret == CanSrv(c) /\ h' = Append(h, "ret") /\ c' = Return(c, Ok, "r") /\ UNCHANGED fin
Fin == ~fin /\ (c.cend # "" \/ c.ret # <<>>) /\ h' = Append(h, "fin") /\ fin' = TRUE /\ UNCHANGED c
Next == Step \/ Ret \/ Fin
Spec == Init /\ [][Next]_vars
View == IF Emit THEN <<c.shape, h>> ELSE vars
\* the header is what was set before it was sent, in order
HeaderFixed == [][c.hdrSent => c'.hdr = c.hdr /\ c'.hdrSent]_vars
TrailerGrows == [][\A k \in DOMAIN c.trl : SubSeq(Of(c'.trl, k), 1, Len(c.trl[k])) = c.trl[k]]_vars
Done == fin /\ c.ret # <<>>
OneOutcome == Done => Cardinality({cls \in {"OK", "EOF", "cancelled", "deadline", "status"} :
    \E m \in {""} \cup {c.resp[i] : i \in DOMAIN c.resp} : Outcome(c, [cls |-> cls, code |-> "OK", msg |-> "", det |-> "", m |-> m])}) = 1
EmitScript == (Emit /\ Done) => PrintT("SCRIPT " \o ToJson([shape |-> c.shape, h |-> h]))
=============================================================================
