----------------------------- MODULE RouterTrace -----------------------------
(* Recorded use of routers (C12): registry calls by overlapping callers, requests through the generated routers and
   wrappers to recording clients, the name interceptor, and the list of services.

   cfg.fb, cfg.fac: whether the router has a fallback, a factory.  Clients are named, "" is none. *)
EXTENDS Router, TraceLib
ASSUME InitRegs
VARIABLES rpc, s, l       \* rpc: the request under way
vars == <<reg, ops, rpc, s, l>>
Ev == Sessions[s].ev[l]
Cfg == Sessions[s].cfg
Is(e) == l <= Len(Sessions[s].ev) /\ Ev.e = e /\ l' = l + 1 /\ s' = s
NoRpc == [m |-> "", req |-> "", s |-> <<>>, calls |-> 0]
Empty == [x \in {} |-> 0]
Init == s \in 1..NSessions /\ l = 1 /\ reg = Empty /\ ops = Empty /\ rpc = NoRpc

Inv == Is("inv") /\ Begin(Ev.o, Ev.k, Ev.n, Ev.c) /\ UNCHANGED rpc
Rpc == Is("rpc") /\ Begin(Ev.o, "rpc", Ev.n, "") /\ rpc' = [m |-> Ev.m, req |-> Ev.req, s |-> Ev.s, calls |-> 0]
Ret == Is("ret") /\ LET p == ops[Ev.o] IN
   /\ Return(Ev.o) /\ p.k \in {"add", "remove", "get"} /\ p.res = Ev.v
   /\ Ev.code = IF p.k = "get" /\ p.res = None THEN "NotFound" ELSE "OK"
   /\ UNCHANGED rpc
RetHas == Is("rethas") /\ Return(Ev.o) /\ ops[Ev.o].k = "has" /\ ops[Ev.o].res = Ev.v /\ UNCHANGED rpc
Fb  == Is("fb") /\ \E o \in DOMAIN ops : ops[o].n = Ev.n /\ Fallback(o, Cfg.fac, Ev.c) /\ UNCHANGED rpc
Fac == Is("fac") /\ \E o \in DOMAIN ops : ops[o].n = Ev.n /\ Factory(o, Ev.c) /\ UNCHANGED rpc
Cb  == /\ Is("cb") /\ \E o \in DOMAIN ops : Notify(o, Change(Ev.n, Ev.old, Ev.new, Ev.auto)) 
       /\ UNCHANGED rpc
\* adding what cannot serve panics and changes nothing
BadAdd == Is("badadd") /\ ~Ev.holds /\ Ev.panicked /\ Ev.has = (Ev.n \in DOMAIN reg) /\ UNCHANGED <<reg, ops, rpc>>
Holds == Is("holds") /\ Ev.holds /\ UNCHANGED <<reg, ops, rpc>>

\* a client received a request
Call == /\ Is("call")
        /\ \E o \in DOMAIN ops : ops[o].k = "rpc" /\ ops[o].st = "done" /\ ops[o].res = Ev.c
        /\ rpc.calls = 0 /\ Ev.m = rpc.m /\ Ev.req = rpc.req
        /\ rpc' = [rpc EXCEPT !.calls = 1] /\ UNCHANGED <<reg, ops>>
SameErr == Ev.code = rpc.s.code /\ Ev.msg = rpc.s.msg /\ Ev.det = rpc.s.det
Nothing == Ev.msgs = <<>>
\* what the caller got, given what the client did
Outcome(client) ==
   IF client = None THEN rpc.calls = 0 /\ Ev.code = "NotFound" /\ Nothing
   ELSE LET k == rpc.s IN
     /\ rpc.calls = 1
     /\ Ev.reached /\ Ev.childdone
     /\ IF k.k = "unary" THEN SameErr /\ (IF k.code = "OK" THEN Ev.msgs = k.msgs ELSE Nothing)
        ELSE IF k.open \/ k.hdrerr THEN SameErr /\ Nothing
        ELSE IF k.fail = -1 THEN Ev.code # "OK" /\ Nothing
        ELSE IF k.fail > 0 /\ k.fail <= Len(k.msgs)
             THEN Ev.code # "OK" /\ Ev.hdr = k.hdr /\ Ev.msgs = SubSeq(k.msgs, 1, k.fail - 1)
        ELSE SameErr /\ Ev.hdr = k.hdr /\ Ev.msgs = k.msgs /\ Ev.trl = k.trl
Done == /\ Is("done") /\ ops[Ev.o].k = "rpc" /\ Return(Ev.o) /\ Outcome(ops[Ev.o].res)
        /\ rpc' = NoRpc

\* every method of every service of the API has a router and a wrapper that know it
Svc == Is("svc") /\ Ev.listed /\ Ev.missing = <<>> /\ UNCHANGED <<reg, ops, rpc>>
\* a wrapper presents the server it was given as that service; a router registers itself as that service
Wrapped == Is("wrapped") /\ Ev.unwraps /\ Ev.svc = Ev.desc /\ Ev.registers /\ UNCHANGED <<reg, ops, rpc>>
\* the interceptor sets an empty name, and only that; what was received and returned is passed on
Filled(b) == IF Ev.named /\ Ev.dflt # "" /\ (IF "name" \in DOMAIN b THEN b["name"] = <<"">> ELSE TRUE) THEN Put(b, "name", <<Ev.dflt>>) ELSE b
Name == Is("name") /\ Ev.after = Filled(Ev.before) /\ Ev.same /\ UNCHANGED <<reg, ops, rpc>>

Internal == \E o \in DOMAIN ops : Take(o, Cfg.fb, Cfg.fac) /\ UNCHANGED <<rpc, s, l>>
Next == Inv \/ Rpc \/ Ret \/ RetHas \/ Fb \/ Fac \/ Cb \/ BadAdd \/ Holds \/ Call \/ Done \/ Svc \/ Wrapped \/ Name \/ Internal
Spec == Init /\ [][Next]_vars
Progress == Note(s, l)
=============================================================================
