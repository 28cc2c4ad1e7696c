------------------------------- MODULE Router -------------------------------
(* A registry of named clients (pkg/router) used by overlapping calls.

   reg  : name -> client; names without one are not in its domain
   ops  : the calls under way, op -> record
          k    "add" "remove" "has" "get" "rpc"       n  the name       c  the client being added
          st   "new" -> "done" for add, remove and has; for get and rpc
               "new" -> "done"                            there was a client
               "new" -> "missed" -> "done"                the fallback supplied one
               "new" -> "missed" -> "declined" -> "made" -> "done"   the factory made one: committed, or lost to another
               "new" -> ...      -> "done"  with res = None: nobody has one
          res  the outcome: a client (the previous, removed or found one) or None; for has TRUE or FALSE
          owed change notifications still to be made
   A call takes effect at one moment between its start and its return (Do*, Look, Miss, Commit); fallback, factory and
   notifications happen outside of that, nothing is locked while they run. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS None
VARIABLES reg, ops
rvars == <<reg, ops>>
Dom(f) == DOMAIN f
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
At(n) == IF n \in DOMAIN reg THEN reg[n] ELSE None
Change(n, old, new, auto) == [n |-> n, old |-> old, new |-> new, auto |-> auto]

Begin(o, k, n, c) == /\ o \notin DOMAIN ops
                     /\ ops' = Put(ops, o, [k |-> k, n |-> n, c |-> c, st |-> "new", res |-> None, owed |-> {}])
                     /\ UNCHANGED reg
Settle(o, st, res, owed) == ops' = [ops EXCEPT ![o].st = st, ![o].res = res, ![o].owed = owed]

DoAdd(o) == LET p == ops[o] IN
   /\ p.k = "add" /\ p.st = "new"
   /\ reg' = Put(reg, p.n, p.c)
   /\ Settle(o, "done", At(p.n), {Change(p.n, At(p.n), p.c, FALSE)})
DoRemove(o) == LET p == ops[o] IN
   /\ p.k = "remove" /\ p.st = "new"
   /\ reg' = Del(reg, p.n)
   /\ Settle(o, "done", At(p.n), IF p.n \in DOMAIN reg THEN {Change(p.n, At(p.n), None, FALSE)} ELSE {})
DoHas(o) == LET p == ops[o] IN
   /\ p.k = "has" /\ p.st = "new"
   /\ Settle(o, "done", p.n \in DOMAIN reg, {}) /\ UNCHANGED reg
Asks(o) == ops[o].k \in {"get", "rpc"}
\* found; a call that has missed may look again before it asks anybody
Look(o) == LET p == ops[o] IN
   /\ Asks(o) /\ p.st \in {"new", "missed", "declined"} /\ p.n \in DOMAIN reg
   /\ Settle(o, "done", reg[p.n], {}) /\ UNCHANGED reg
Miss(o, hasFb, hasFac) == LET p == ops[o] IN
   /\ Asks(o) /\ p.st = "new" /\ p.n \notin DOMAIN reg
   /\ Settle(o, IF hasFb THEN "missed" ELSE IF hasFac THEN "declined" ELSE "done", None, {}) /\ UNCHANGED reg
\* what the fallback supplies is used but not remembered
Fallback(o, hasFac, c) == LET p == ops[o] IN
   /\ p.st = "missed"
   /\ IF c # None THEN Settle(o, "done", c, {}) ELSE Settle(o, IF hasFac THEN "declined" ELSE "done", None, {})
   /\ UNCHANGED reg
Factory(o, c) == LET p == ops[o] IN
   /\ p.st = "declined"
   /\ IF c # None THEN Settle(o, "made", c, {}) ELSE Settle(o, "done", None, {})
   /\ UNCHANGED reg
\* only one of the clients made for a name is remembered, everybody uses that one
Commit(o) == LET p == ops[o] IN
   /\ p.st = "made"
   /\ IF p.n \in DOMAIN reg THEN Settle(o, "done", reg[p.n], {}) /\ UNCHANGED reg
      ELSE reg' = Put(reg, p.n, p.res) /\ Settle(o, "done", p.res, {Change(p.n, None, p.res, TRUE)})
Notify(o, ch) == ch \in ops[o].owed /\ ops' = [ops EXCEPT ![o].owed = @ \ {ch}] /\ UNCHANGED reg
\* replacing a client by itself is no transition, telling so is optional
Owes(o) == \E ch \in ops[o].owed : ch.old # ch.new
Return(o) == ops[o].st = "done" /\ ~Owes(o) /\ ops' = Del(ops, o) /\ UNCHANGED reg
Take(o, hasFb, hasFac) == DoAdd(o) \/ DoRemove(o) \/ DoHas(o) \/ Look(o) \/ Miss(o, hasFb, hasFac) \/ Commit(o)
=============================================================================
