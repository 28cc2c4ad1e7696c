-------------------------------- MODULE Lossy --------------------------------
(* Delivery without backpressure (C09).  Writes to a collection form, per id, a chain of changes.  Whatever happened to an
   item since the subscriber was last told about it is, to the subscriber, one change: what it has to be told only
   depends on what it holds, what is there now and whether the item was gone in between. *)
EXTENDS Integers, Sequences, FiniteSets

\* a change: [id, old, new, time]: old/new are <<>> (absent) or <<value>>
\* the run of changes es (same id, consecutive) to a subscriber holding es[1].old
Gone(es) == \E i \in 1..(Len(es) - 1) : es[i].new = <<>>
Net(es) ==
  LET a == es[1].old  b == es[Len(es)].new  t == es[Len(es)].time
  IN IF a = <<>> /\ b = <<>> THEN <<>>                    \* came and went: nothing to tell
     ELSE <<[id |-> es[1].id, old |-> a, new |-> b, time |-> t,
             kind |-> IF a = <<>> THEN "ADD" ELSE IF b = <<>> THEN "REMOVE"
                      ELSE IF Gone(es) THEN "REPLACE" ELSE "UPDATE"]>>
HoldF(f, id, o) == IF o = <<>> THEN [x \in DOMAIN f \ {id} |-> f[x]]
                   ELSE [x \in DOMAIN f \cup {id} |-> IF x = id THEN o[1] ELSE f[x]]
=============================================================================
