----------------------------- MODULE StoreTrace -----------------------------
(* Recorded call sequences on a Value or Collection, one caller at a time, judged by the actions of Store. *)
EXTENDS Store, TraceLib
Schemas == JsonDeserialize(IOEnv.SCHEMAS)
ASSUME InitRegs
VARIABLES s, l
vars == <<storeVars, s, l>>
Ev == Sessions[s].ev[l]
Cfg == Sessions[s].cfg
S == Schemas[Cfg.schema]
IsValue == Cfg.kind = "value"
Is(e) == l <= Len(Sessions[s].ev) /\ Ev.e = e /\ l' = l + 1 /\ s' = s
EmptyFn == [x \in {} |-> <<>>]

Init == s \in 1..NSessions /\ l = 1 /\ m = EmptyFn /\ t = EmptyFn /\ log = <<>>

New == Is("new") /\ m' = Ev.m /\ t' = Ev.t /\ log' = <<>>

Cbs(k) == SelectSeq(Ev.cbs, LAMBDA c : c.k = k)
Wr == IF Ev.allw \/ Ev.W.nil THEN [nil |-> TRUE, p |-> <<>>] ELSE [nil |-> FALSE, p |-> Ev.W.p \o Ev.X]

\* the message the write starts from, as it was when the write began to apply it
Src == IF Cbs("before") # <<>> THEN Cbs("before")[1].out
       ELSE IF Cbs("id") # <<>> THEN Cbs("id")[1].src
       ELSE Ev.src
Given == IF Cbs("id") # <<>> THEN Cbs("id")[1].src ELSE Ev.src
GKey == IF Cbs("id") # <<>> THEN Cbs("id")[1].key ELSE ""
Req == [id |-> Ev.id, key |-> Ev.key, gen |-> Ev.gen, gkey |-> GKey,
        absent |-> Ev.absent /\ ~IsValue, create |-> Ev.create \/ IsValue,
        src |-> Src, M |-> Ev.M, W |-> Wr, R |-> Ev.R, hasExp |-> Ev.hasExp, exp |-> Ev.exp, check |-> Ev.check,
        wt |-> Ev.wt, now |-> Ev.now]
\* what callbacks may be shown as the old value
SeenOld(v) == IF Key(Req) \in DOMAIN m THEN v = m[Key(Req)] ELSE v \in {NilMsg, Empty}

\* getters agree with the contents after every call, List is sorted by id
Observed == /\ Ev.after = m'
            /\ Len(Ev.ids) = Cardinality(DOMAIN m') /\ Range(Ev.ids) = DOMAIN m'
            /\ IsValue \/ Ev.list = [i \in DOMAIN Ev.ids |-> m'[Ev.ids[i]]]

Checks == \A i \in DOMAIN Cbs("check") : SeenOld(Cbs("check")[i].seen)

Write ==
  /\ Is("write")
  /\ Ev.panic = ""
  /\ Checks
  /\ IF Ev.code = "OK"
     THEN LET after == Cbs("after")
              before == Cbs("before")
              merged == IF after # <<>> THEN after[1].in ELSE Ev.ret
          IN /\ WriteOK(S, Req, merged, Ev.ret)
             /\ Len(before) = (IF Ev.hasBefore THEN 1 ELSE 0)
             /\ Len(after) = (IF Ev.hasAfter THEN 1 ELSE 0)
             /\ before # <<>> => SeenOld(before[1].old) /\ before[1].in = Given
             /\ after # <<>> => SeenOld(after[1].old) /\ after[1].out = Ev.ret
             /\ Ev.hasCheck => Cbs("check") # <<>>
             /\ Len(Cbs("id")) = (IF Ev.gen /\ Ev.id = "" THEN 1 ELSE 0)
             /\ Len(Cbs("created")) = (IF Ev.hasCreated /\ Key(Req) \notin DOMAIN m THEN 1 ELSE 0)
     ELSE \/ WriteFail(S, Req, Ev.code)
          \/ Cfg.badRng /\ Ev.gen /\ Ev.id = "" /\ Ev.code = "Aborted" /\ UNCHANGED storeVars
  /\ Observed

Delete ==
  /\ Is("delete")
  /\ Ev.panic = ""
  /\ Checks
  /\ LET q == [key |-> Ev.key, allowMissing |-> Ev.allowMissing, hasExp |-> Ev.hasExp, exp |-> Ev.exp, check |-> Ev.check,
               wt |-> Ev.wt, now |-> Ev.now]
     IN IF Ev.code = "OK"
        THEN DeleteOK(q) /\ Ev.ret = (IF Ev.key \in DOMAIN m THEN m[Ev.key] ELSE NilMsg)
        ELSE DeleteFail(q, Ev.code)
  /\ Observed

Get ==
  /\ Is("get")
  /\ Ev.panic = ""
  /\ Ev.found = (Ev.key \in DOMAIN m)
  /\ Ev.found => IsProjection(m[Ev.key], Ev.M, Ev.r)
  /\ UNCHANGED storeVars

\* List with a read mask and/or an include predicate (Ev.inc: the ids the predicate accepted, sorted)
List ==
  /\ Is("list")
  /\ Ev.panic = ""
  /\ Len(Ev.r) = Len(Ev.inc)
  /\ Range(Ev.inc) \subseteq DOMAIN m
  /\ \A i \in DOMAIN Ev.inc : IsProjection(m[Ev.inc[i]], Ev.M, Ev.r[i])
  /\ UNCHANGED storeVars

\* failing calls emitted nothing, successful ones were emitted (exactly what is C04); the stored change times, as
\* a fresh subscription reports them
Final ==
  /\ Is("final")
  /\ Len(Ev.events) = Len(log)
  /\ \A i \in DOMAIN log : Ev.events[i].new = log[i].new
  /\ Len(Ev.seeds) = Len(Ev.ids) /\ Range(Ev.ids) = DOMAIN m
  /\ \A i \in DOMAIN Ev.ids : Ev.seeds[i].new = m[Ev.ids[i]] /\ Ev.seeds[i].time = t[Ev.ids[i]]
  /\ UNCHANGED storeVars

Next == New \/ Write \/ Delete \/ Get \/ List \/ Final
Spec == Init /\ [][Next]_vars
Progress == Note(s, l)
=============================================================================
