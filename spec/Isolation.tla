------------------------------- MODULE Isolation -------------------------------
(* Messages that cross the boundary between callers and the library (C07). seen[i] is what the i-th message was when it
   crossed; what it is now has to be the same, unless a caller has modified a message of their own. Reads and caller's
   modifications leave what can be read as it was. *)
EXTENDS Naturals, Sequences
\* now: what all messages that crossed, and those that did just now, look like
Kept(seen, now) == Len(now) >= Len(seen) /\ \A i \in 1..Len(seen) : now[i] = seen[i]
KeptBut(seen, now, i) == Len(now) = Len(seen) /\ \A j \in 1..Len(seen) : j = i \/ now[j] = seen[j]
=============================================================================
