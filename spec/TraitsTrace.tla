------------------------------- MODULE TraitsTrace -------------------------------
(* Histories of operations on trait models that keep derived state, with what the model says of itself after each (C20). *)
EXTENDS Traits, TraceLib
ASSUME InitRegs
VARIABLES z, vers, s, l
vars == <<z, vers, s, l>>
Evs == Sessions[s].ev
Ev == Evs[l]
Cfg == Sessions[s].cfg
Kind == Cfg.kind
Is(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ s' = s
Nothing == [x \in {} |-> ""]
Init == s \in 1..NSessions /\ l = 1 /\ z = Nothing /\ vers = Nothing
SetOf(f) == [n \in DOMAIN f |-> ToSet(f[n])]
Fan(x) == [p |-> x.p, i |-> x.i, pct |-> x.pct, d |-> x.d]
\* a model starts as it was configured
Start == /\ Is("start") /\ UNCHANGED vers
         /\ LET now == Ev.now IN
            CASE Kind = "parent" -> z' = SetOf(Cfg.init) /\ ParentIs(z', now)
              [] Kind = "vend"   -> z' = now /\ now = Cfg.init
              [] Kind = "fan"    -> z' = Fan(now) /\ (IF Cfg.init = <<>> THEN FanConsistent(Cfg.presets, z') ELSE Fan(Cfg.init[1]) = z')
              [] Kind = "mode"   -> z' = now /\ now = ModeInit(Cfg.modes) /\ Ev.modes = Cfg.modes
              [] Kind = "enter"  -> z' = [e |-> now.e, l |-> now.l] /\ now = Cfg.init
              [] Kind = "meter"  -> /\ z' = [u |-> now.u, st |-> now.st, en |-> now.en] /\ now.u = Cfg.init.u
                                    /\ IF Cfg.init.st # <<>> THEN now.st = Cfg.init.st ELSE now.st # <<>> /\ now.st[1] \in Ev.t0 .. Ev.t1
                                    /\ IF Cfg.init.en # <<>> THEN now.en = Cfg.init.en ELSE now.en # <<>> /\ now.en[1] \in Ev.t0 .. Ev.t1
              [] Kind = "pub"    -> z' = now /\ now = Cfg.init
              [] OTHER -> z' = z
\* an operation, what it returned and what the model says next
Op == /\ Is("op")
      /\ LET o == Ev.o  r == Ev.r  now == Ev.now IN
         CASE Kind = "parent" -> /\ UNCHANGED vers
                                 /\ \E y \in ParentStep(z, o) : y.code = r.code /\ z' = y.z
                                 /\ ParentIs(z', now) /\ ParentSays(z, z', o, r)
           [] Kind = "vend"   -> z' = now /\ UNCHANGED vers /\ VendStep(z, now, o, r.code)
                                 /\ IF r.code = "OK" /\ o.op = "dispense" THEN r.ret = <<now[o.id]>> ELSE TRUE
           [] Kind = "unit"   -> Converted(o, r) /\ UNCHANGED <<z, vers>>
           [] Kind = "fan"    -> /\ UNCHANGED vers
                                 /\ \E y \in FanStep(Cfg.presets, z, o) : y.code = r.code /\ y.z = Fan(now) /\ z' = y.z
                                 /\ (FanConsistent(Cfg.presets, z) => FanConsistent(Cfg.presets, z'))
                                 /\ IF r.code = "OK" THEN Fan(r.ret[1]) = Fan(now) ELSE TRUE
           [] Kind = "mode"   -> /\ z' = now /\ UNCHANGED vers /\ r.code = "OK" /\ ModeIs(Cfg.modes, z, o, now) /\ r.ret = now
           [] Kind = "enter"  -> /\ UNCHANGED vers
                                 /\ \E y \in EnterStep(z, o) : y.code = r.code /\ z' = y.z
                                 /\ z' = [e |-> now.e, l |-> now.l]
           [] Kind = "meter"  -> /\ UNCHANGED vers
                                 /\ \E y \in MeterStep(z, o, r.t0 .. r.t1) : y.code = r.code /\ y.z = now /\ z' = y.z
                                 /\ (MeterConsistent(z) => MeterConsistent(z')) /\ r.ret = <<now>>
           [] Kind = "pub"    -> LET id == IF o.op = "create" THEN r.id ELSE o.id
                                     v == IF r.code = "OK" /\ id \in DOMAIN now THEN now[id].v ELSE ""
                                 IN /\ \E y \in PubStep(z, o, id, v, r.t0 .. r.t1) : y.code = r.code /\ y.z = now /\ z' = y.z
                                    /\ vers' = NewVersions(vers, o, id, z, z', r.code)
                                    /\ IF r.code = "OK" /\ o.op \in {"create", "update"} THEN Versioned(vers, Content(id, now[id]), v) ELSE TRUE
                                    /\ IF r.code = "OK" /\ o.op # "delete" THEN r.ret = <<now[id]>> ELSE TRUE
           [] OTHER -> FALSE
\* a model that was given something to start with has it
Has == Is("has") /\ UNCHANGED <<z, vers>> /\ Ev.got = Ev.want
\* goroutines, each with a trait of its own, changing the same children at once: as if one after the other
RECURSIVE After(_, _)
After(x, q) == IF q = <<>> THEN x ELSE After((CHOOSE y \in ParentStep(x, q[1]) : TRUE).z, Tail(q))
AtOnce == /\ Is("atonce") /\ UNCHANGED vers /\ Kind = "parent" /\ Ev.panic = ""
          /\ z' = After(z, Ev.ops) /\ ParentIs(z', Ev.now)
Next == Start \/ Op \/ Has \/ AtOnce
Spec == Init /\ [][Next]_vars
Progress == Note(s, l)
==================================================================================
