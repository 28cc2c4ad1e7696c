-------------------------------- MODULE Race --------------------------------
(* C11.  What the library does with memory, locks and channels, instruction by instruction, and the happens-before   *)
(* order of the Go memory model kept with vector clocks.  Two accesses to the same memory, one of them a write, that  *)
(* are not ordered by it are a data race: `racy` collects the memory this happened to.                                *)
(*                                                                                                                    *)
(* Memory: "cell" (the value of a Value, the map of a Collection), "rng" (random source ids are made from), "subs"    *)
(* (a bus' listeners), "hdr" and "trl" (metadata of a stream), "slot" (a result of a group), and messages 0, 1, ....  *)
(*                                                                                                                    *)
(* Flaw names a design that differs from the library's in one way (see IsFlawed); "none" is the library's.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Thr,   \* 1..n
          Ops,   \* operations to be used
          Flaw

Locks == {"mu", "rng", "bus"}
Flags == {"hdr", "end", "res"}     \* channels that are only closed, or sent to once
Mem   == {"cell", "rng", "subs", "hdr", "trl", "slot"} \cup {ToString(i) : i \in 0..(2 * Cardinality(Thr))}
Nobody == 0

I(k, x) == [k |-> k, x |-> x]
Is(f) == Flaw = f

(* common parts *)
Read       == <<I("rlock", "mu"), I("load", "cell"), I("runlock", "mu")>>
SaveLock   == IF Is("saveRLock") THEN I("rlock", "mu") ELSE I("lock", "mu")
SaveUnlock == IF Is("saveRLock") THEN I("runlock", "mu") ELSE I("unlock", "mu")
Reserve    == <<I("lock", "bus"), I("read", "subs"), I("reserve", ""), I("unlock", "bus")>>
Publish    == IF Is("publishShared") THEN <<I("edit", ""), I("send", "")>> ELSE <<I("send", "")>>
Save       == <<SaveLock, I("recheck", "cell"), I("store", "cell")>> \o Reserve \o <<SaveUnlock>> \o Publish \o <<I("readnew", "")>>
(* the new message is made from a copy of the old one and of the caller's: checks and interceptors read both *)
Change     == IF Is("inplace") THEN <<I("readmsg", ""), I("alter", "")>> ELSE <<I("readmsg", ""), I("readarg", ""), I("fresh", "")>>

Code == [
  get    |-> Read \o <<I("readmsg", "")>>,
  write  |-> <<I("arg", "")>> \o Read \o Change \o Save \o <<I("writearg", "")>>,
  create |-> <<I("arg", ""), I("rlock", "mu")>>
             \o (IF Is("rngRLock") THEN <<I("read", "rng"), I("write", "rng")>>
                 ELSE <<I("lock", "rng"), I("read", "rng"), I("write", "rng"), I("unlock", "rng")>>)
             \o <<I("load", "cell"), I("runlock", "mu")>> \o <<I("readarg", ""), I("fresh", "")>> \o Save,
  delete |-> Read \o <<I("readmsg", "")>> \o <<I("lock", "mu"), I("recheck", "cell"), I("write", "cell")>> \o Reserve
             \o <<I("unlock", "mu"), I("send", "")>>,
  pull   |-> (IF Is("seedUnlocked") THEN <<I("load", "cell"), I("rlock", "mu")>> ELSE <<I("rlock", "mu"), I("load", "cell")>>)
             \o (IF Is("listenUnlocked") THEN <<I("write", "subs"), I("listen", "")>>
                 ELSE <<I("lock", "bus"), I("write", "subs"), I("listen", ""), I("unlock", "bus")>>)
             \o <<I("runlock", "mu"), I("readmsg", ""), I("receive", ""), I("readmsg", "")>>,
  serve  |-> <<I("write", "hdr"), I("close", "hdr"), I("write", "trl"), I("close", "end")>>,
  client |-> <<I("wait", "hdr"), I("read", "hdr")>> \o (IF Is("earlyTrailer") THEN <<>> ELSE <<I("wait", "end")>>) \o <<I("read", "trl")>>,
  member |-> <<I("write", "slot"), I("close", "res")>>,
  group  |-> (IF Is("earlyResult") THEN <<>> ELSE <<I("wait", "res")>>) \o <<I("read", "slot")>>
]

VARIABLES op, pc, vc, rel, rrel, owner, readers, closed, lastW, lastR, racy, cell, reg, new, arg, subs, queue, res
vars == <<op, pc, vc, rel, rrel, owner, readers, closed, lastW, lastR, racy, cell, reg, new, arg, subs, queue, res>>
sync == <<rel, rrel, owner, readers, closed>>
data == <<cell, reg, new, arg, subs, queue, res>>

Zero == [t \in Thr |-> 0]
Join(a, b) == [t \in Thr |-> IF a[t] > b[t] THEN a[t] ELSE b[t]]
Leq(a, b) == \A t \in Thr : a[t] <= b[t]
Tick(a, t) == [a EXCEPT ![t] = @ + 1]

Init ==
  /\ op \in [Thr -> Ops]
  \* threads are alike; streams and groups have one server and one collector
  /\ \A s, t \in Thr : s < t => (CHOOSE i \in 1..9 : <<"get", "write", "create", "delete", "pull", "serve", "client", "member", "group">>[i] = op[s])
                              <= (CHOOSE i \in 1..9 : <<"get", "write", "create", "delete", "pull", "serve", "client", "member", "group">>[i] = op[t])
  /\ \A o \in {"serve", "member"} : Cardinality({t \in Thr : op[t] = o}) <= 1
  /\ (\E t \in Thr : op[t] = "client") => \E t \in Thr : op[t] = "serve"
  /\ (\E t \in Thr : op[t] = "group") => \E t \in Thr : op[t] = "member"
  /\ pc = [t \in Thr |-> 1]
  /\ vc = [t \in Thr |-> [Zero EXCEPT ![t] = 1]]
  /\ rel = [l \in Locks |-> Zero] /\ rrel = [l \in Locks |-> Zero]
  /\ owner = [l \in Locks |-> Nobody] /\ readers = [l \in Locks |-> {}]
  /\ closed = [f \in Flags |-> <<>>]
  /\ lastW = [m \in Mem |-> Zero] /\ lastR = [m \in Mem |-> Zero]
  /\ racy = {}
  /\ cell = 0 /\ reg = [t \in Thr |-> 0] /\ new = [t \in Thr |-> 0] /\ arg = [t \in Thr |-> 0]
  /\ subs = {} /\ queue = [t \in Thr |-> <<>>] /\ res = [t \in Thr |-> {}]

At(t) == Code[op[t]][pc[t]]
Done(t) == pc[t] > Len(Code[op[t]])
Next1(t) == pc' = [pc EXCEPT ![t] = @ + 1]

(* memory accesses *)
Reads(t, m) ==
  /\ racy' = IF Leq(lastW[m], vc[t]) THEN racy ELSE racy \cup {m}
  /\ lastR' = [lastR EXCEPT ![m][t] = vc[t][t]]
  /\ UNCHANGED lastW
Writes(t, m) ==
  /\ racy' = IF Leq(lastW[m], vc[t]) /\ Leq(lastR[m], vc[t]) THEN racy ELSE racy \cup {m}
  /\ lastW' = [lastW EXCEPT ![m][t] = vc[t][t]]
  /\ UNCHANGED lastR
Silent == UNCHANGED <<lastW, lastR, racy>>

Acquire(t, c) == vc' = [vc EXCEPT ![t] = Join(@, c)]
Release(t) == vc' = [vc EXCEPT ![t] = Tick(@, t)]

Step(t) ==
  /\ ~Done(t)
  /\ LET i == At(t) l == i.x IN
     CASE i.k = "rlock" -> /\ owner[l] = Nobody
                           /\ readers' = [readers EXCEPT ![l] = @ \cup {t}]
                           /\ Acquire(t, rel[l]) /\ Next1(t) /\ Silent
                           /\ UNCHANGED <<op, rel, rrel, owner, closed, data>>
       [] i.k = "runlock" -> /\ readers' = [readers EXCEPT ![l] = @ \ {t}]
                             /\ rrel' = [rrel EXCEPT ![l] = Join(@, vc[t])]
                             /\ Release(t) /\ Next1(t) /\ Silent
                             /\ UNCHANGED <<op, rel, owner, closed, data>>
       [] i.k = "lock" -> /\ owner[l] = Nobody /\ readers[l] = {}
                          /\ owner' = [owner EXCEPT ![l] = t]
                          /\ Acquire(t, Join(rel[l], rrel[l])) /\ Next1(t) /\ Silent
                          /\ UNCHANGED <<op, rel, rrel, readers, closed, data>>
       [] i.k = "unlock" -> /\ owner' = [owner EXCEPT ![l] = Nobody]
                            /\ rel' = [rel EXCEPT ![l] = vc[t]]
                            /\ Release(t) /\ Next1(t) /\ Silent
                            /\ UNCHANGED <<op, rrel, readers, closed, data>>
       [] i.k = "close" -> /\ closed' = [closed EXCEPT ![l] = <<vc[t]>>]
                           /\ Release(t) /\ Next1(t) /\ Silent
                           /\ UNCHANGED <<op, rel, rrel, owner, readers, data>>
       [] i.k = "wait" -> /\ closed[l] # <<>>
                          /\ Acquire(t, closed[l][1]) /\ Next1(t) /\ Silent
                          /\ UNCHANGED <<op, sync, data>>
       [] i.k = "read" -> Reads(t, l) /\ Next1(t) /\ UNCHANGED <<op, vc, sync, data>>
       [] i.k = "write" -> /\ Writes(t, l) /\ Next1(t)
                           /\ UNCHANGED <<op, vc, sync, data>>
       [] i.k = "load" -> /\ Reads(t, l) /\ reg' = [reg EXCEPT ![t] = cell] /\ Next1(t)
                          /\ UNCHANGED <<op, vc, sync, cell, new, arg, subs, queue, res>>
       [] i.k = "recheck" ->  \* the value must still be the one seen, otherwise give up
            /\ Reads(t, l)
            /\ IF cell = reg[t] THEN Next1(t) /\ UNCHANGED <<op, vc, sync, data>>
               ELSE /\ pc' = [pc EXCEPT ![t] = Len(Code[op[t]]) + 1]
                    /\ owner' = [owner EXCEPT !["mu"] = IF @ = t THEN Nobody ELSE @]
                    /\ readers' = [readers EXCEPT !["mu"] = @ \ {t}]
                    /\ rel' = [rel EXCEPT !["mu"] = IF owner["mu"] = t THEN vc[t] ELSE @]
                    /\ Release(t)
                    /\ UNCHANGED <<op, rrel, closed, data>>
       [] i.k = "store" -> /\ Writes(t, l) /\ cell' = new[t] /\ Next1(t)
                           /\ UNCHANGED <<op, vc, sync, reg, new, arg, subs, queue, res>>
       [] i.k = "readmsg" -> Reads(t, ToString(reg[t])) /\ Next1(t) /\ UNCHANGED <<op, vc, sync, data>>
       [] i.k = "readnew" -> Reads(t, ToString(new[t])) /\ Next1(t) /\ UNCHANGED <<op, vc, sync, data>>
       [] i.k = "arg" -> \* the caller makes its message: 2t
            /\ arg' = [arg EXCEPT ![t] = 2 * t] /\ Writes(t, ToString(2 * t)) /\ Next1(t)
            /\ UNCHANGED <<op, vc, sync, cell, reg, new, subs, queue, res>>
       [] i.k = "readarg" -> Reads(t, ToString(arg[t])) /\ Next1(t) /\ UNCHANGED <<op, vc, sync, data>>
       [] i.k = "writearg" -> Writes(t, ToString(arg[t])) /\ Next1(t) /\ UNCHANGED <<op, vc, sync, data>>
       [] i.k = "fresh" -> \* the library makes its own message: 2t - 1
            /\ LET n == IF Is("keepArg") THEN arg[t] ELSE 2 * t - 1 IN
                 /\ new' = [new EXCEPT ![t] = n]
                 /\ IF Is("keepArg") THEN Reads(t, ToString(n)) ELSE Writes(t, ToString(n))
            /\ Next1(t) /\ UNCHANGED <<op, vc, sync, cell, reg, arg, subs, queue, res>>
       [] i.k = "alter" -> \* the flaw "inplace": the old message is the new one
            /\ new' = [new EXCEPT ![t] = reg[t]] /\ Writes(t, ToString(reg[t])) /\ Next1(t)
            /\ UNCHANGED <<op, vc, sync, cell, reg, arg, subs, queue, res>>
       [] i.k = "edit" -> \* the flaw "publishShared": what has been saved is touched up before it is sent
            Writes(t, ToString(new[t])) /\ Next1(t) /\ UNCHANGED <<op, vc, sync, data>>
       [] i.k = "reserve" -> /\ res' = [res EXCEPT ![t] = subs] /\ Silent /\ Next1(t)
                             /\ UNCHANGED <<op, vc, sync, cell, reg, new, arg, subs, queue>>
       [] i.k = "send" -> /\ queue' = [s \in Thr |-> IF s \in res[t] THEN Append(queue[s], <<vc[t], IF op[t] = "delete" THEN reg[t] ELSE new[t]>>) ELSE queue[s]]
                          /\ Release(t) /\ Next1(t) /\ Silent
                          /\ UNCHANGED <<op, sync, cell, reg, new, arg, subs, res>>
       [] i.k = "listen" -> /\ subs' = subs \cup {t} /\ Silent /\ Next1(t)
                            /\ UNCHANGED <<op, vc, sync, cell, reg, new, arg, queue, res>>
       [] i.k = "receive" ->
            \/ /\ queue[t] # <<>>
               /\ Acquire(t, Head(queue[t])[1]) /\ reg' = [reg EXCEPT ![t] = Head(queue[t])[2]]
               /\ queue' = [queue EXCEPT ![t] = Tail(@)]
               /\ Next1(t) /\ Silent /\ UNCHANGED <<op, sync, cell, new, arg, subs, res>>
            \/ \* cancelled
               /\ Next1(t) /\ Silent /\ UNCHANGED <<op, vc, sync, data>>

Next == \E t \in Thr : Step(t)
Spec == Init /\ [][Next]_vars

NoRace == racy = {}
\* nobody is left waiting
NoneStuck == (\E t \in Thr : ~Done(t)) => ENABLED Next
=============================================================================
