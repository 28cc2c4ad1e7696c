------------------------------ MODULE RouterMC ------------------------------
(* Overlapping calls on the registry: every interleaving of up to MaxOps calls by a few callers. *)
EXTENDS Router, TLC
CONSTANTS Names, Clients, Callers, MaxOps, HasFb, HasFac
VARIABLES n, told, made   \* calls made; notifications so far; clients the factory made, in order
vars == <<reg, ops, n, told, made>>
Init == reg = <<>> /\ ops = <<>> /\ n = 0 /\ told = <<>> /\ made = 0
Start == /\ n < MaxOps /\ n' = n + 1 /\ UNCHANGED <<told, made>>
         /\ \E o \in Callers, nm \in Names :
              \/ \E k \in {"remove", "has", "get"} : Begin(o, k, nm, None)
              \/ \E c \in Clients : Begin(o, "add", nm, c)
\* clients made by the factory are new ones: 100, 101 ...
Next == \/ Start
        \/ \E o \in DOMAIN ops :
             \/ Take(o, HasFb, HasFac) /\ UNCHANGED <<n, told, made>>
             \/ HasFb /\ \E c \in Clients \cup {None} : Fallback(o, HasFac, c) /\ UNCHANGED <<n, told, made>>
             \/ \/ Factory(o, 100 + made) /\ made' = made + 1 /\ UNCHANGED <<n, told>>
                \/ Factory(o, None) /\ UNCHANGED <<n, told, made>>
             \/ \E ch \in ops[o].owed : Notify(o, ch) /\ told' = Append(told, ch) /\ UNCHANGED <<n, made>>
             \/ Return(o) /\ UNCHANGED <<n, told, made>>
Spec == Init /\ [][Next]_vars
Count(S, P(_)) == Cardinality({x \in S : P(x)})
Owed == {<<o, ch>> : o \in DOMAIN ops, ch \in UNION {ops[x].owed : x \in DOMAIN ops}} \cap UNION {{<<o, ch>> : ch \in ops[o].owed} : o \in DOMAIN ops}
\* the notifications, made and owed, are the transitions: per name they balance to what is registered
Balanced == \A nm \in Names : \A c \in (Clients \cup 100..(100 + made)) :
   LET in == Count(DOMAIN told, LAMBDA i : told[i].n = nm /\ told[i].new = c) + Count(Owed, LAMBDA x : x[2].n = nm /\ x[2].new = c)
       out == Count(DOMAIN told, LAMBDA i : told[i].n = nm /\ told[i].old = c) + Count(Owed, LAMBDA x : x[2].n = nm /\ x[2].old = c)
   IN in - out = IF At(nm) = c THEN 1 ELSE 0
\* two transitions from nothing to an automatic client are separated by one back to nothing
AutoOnce == \A nm \in Names :
   LET auto == Count(DOMAIN told, LAMBDA i : told[i].n = nm /\ told[i].auto) + Count(Owed, LAMBDA x : x[2].n = nm /\ x[2].auto)
       gone == Count(DOMAIN told, LAMBDA i : told[i].n = nm /\ told[i].new = None) + Count(Owed, LAMBDA x : x[2].n = nm /\ x[2].new = None)
   IN auto <= gone + 1
\* who found a client found one that was registered, supplied or committed
Found == \A o \in DOMAIN ops : ops[o].st = "done" /\ Asks(o) /\ ops[o].res # None =>
   \/ ops[o].res \in Clients
   \/ \E i \in DOMAIN told : told[i].new = ops[o].res
   \/ \E x \in Owed : x[2].new = ops[o].res
=============================================================================
