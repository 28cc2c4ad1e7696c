----------------------------- MODULE RegisterTrace -----------------------------
(* What clients behind wrapper, router and wrapper saw of a register (C14). *)
EXTENDS Register, TraceLib
Schemas == JsonDeserialize(IOEnv.SCHEMAS)
ASSUME InitRegs
VARIABLES s, l, reg, sts
vars == <<s, l, reg, sts>>
Cfg == Sessions[s].cfg
Ev == Sessions[s].ev[l]
Is(e) == l <= Len(Sessions[s].ev) /\ Ev.e = e /\ l' = l + 1 /\ s' = s
Loose == Range(Cfg.loose)
Nil == [x \in {"!nil"} |-> <<>>]
Init == s \in 1..NSessions /\ l = 1 /\ reg = Nil /\ sts = <<>>
\* the first Get says what the register starts with
Get == /\ Is("get") /\ UNCHANGED sts
       /\ IF reg = Nil THEN Ev.code = "OK" /\ Ev.mask.nil /\ reg' = Ev.v
          ELSE reg' = reg /\ Ev.code = "OK" /\ IsProjection(reg, Ev.mask, Ev.v) = TRUE
Write == /\ Is("write")
         /\ Ev.acode = "OK"
         /\ IF Ev.code = "OK"
            THEN /\ IF Ev.hasresp THEN Ev.resp = Ev.after ELSE TRUE
                 /\ IF Ev.plain THEN IsUpdate(Schemas[Cfg.reg], reg, Ev.src, Ev.mask, [nil |-> TRUE, p |-> <<>>], [nil |-> TRUE, p |-> <<>>], Ev.after) = TRUE ELSE TRUE
                 /\ sts' = [n \in DOMAIN sts |-> Told(Tried(sts[n], reg), reg, Ev.after, Loose)]
            ELSE Ev.after = reg /\ sts' = [n \in DOMAIN sts |-> Tried(sts[n], reg)]
         /\ reg' = Ev.after
Open == /\ Is("open") /\ Ev.code = "OK" /\ reg' = reg
        /\ sts' = Append(sts, Opened(Ev.name, Ev.uo, Ev.mask, reg, ~(Cfg.steps /\ DOMAIN reg = {""})))
Recv == /\ Is("recv") /\ reg' = reg
        /\ LET n == Ev.n + 1 IN
           /\ Ev.name = sts[n].name
           /\ \/ \E k \in Places(sts[n], Ev.v, Range(Cfg.seedless)) : sts' = [sts EXCEPT ![n] = Heard(@, k)]
              \/ (Cfg.steps \/ Repeats(sts[n], Ev.v)) /\ sts' = sts
Settled == Is("settled") /\ UNCHANGED <<reg, sts>> /\ \A n \in DOMAIN sts : Quiet(sts[n])
Next == Get \/ Write \/ Open \/ Recv \/ Settled
Spec == Init /\ [][Next]_vars
Progress == Note(s, l)
=============================================================================
