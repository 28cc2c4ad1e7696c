------------------------------- MODULE LossyMC -------------------------------
(* A protocol that delivers losslessly-by-merging: one pending change per id, a FIFO of ids, one change in hand of the
   goroutine sending to the subscriber.  Merging is pairwise, as changes arrive.  Writers are never disabled. *)
EXTENDS Lossy
CONSTANTS Ids, Vals, MaxWrites
VARIABLES m, pend, queue, hand, view, n, since, last
vars == <<m, pend, queue, hand, view, n, since, last>>
NoF == [x \in {} |-> 0]
Opt(f, id) == IF id \in DOMAIN f THEN <<f[id]>> ELSE <<>>
\* since: ghost, all changes per id not yet delivered or in hand
Init == /\ m \in UNION {[D -> Vals] : D \in SUBSET Ids} /\ pend = NoF /\ queue = <<>> /\ hand = <<>>
        /\ view = m /\ n = 0 /\ since = [x \in Ids |-> <<>>] /\ last = <<>>

\* the pairwise merge of kinds
Merge(a, b) ==
  IF a.kind = "ADD"
  THEN IF b.kind = "REMOVE" THEN <<>> ELSE <<[b EXCEPT !.kind = "ADD", !.old = <<>>]>>
  ELSE LET k == IF b.kind = "REMOVE" THEN "REMOVE"
                ELSE IF a.kind \in {"REMOVE", "REPLACE"} THEN "REPLACE" ELSE b.kind
       IN <<[b EXCEPT !.kind = k, !.old = a.old]>>
Without(q, id) == SelectSeq(q, LAMBDA x : x # id)
DelP(f, id) == [x \in DOMAIN f \ {id} |-> f[x]]
SetP(f, id, v) == [x \in DOMAIN f \cup {id} |-> IF x = id THEN v ELSE f[x]]
Arrive(c) ==
  LET id == c.id
      r == IF id \in DOMAIN pend THEN Merge(pend[id], c) ELSE <<c>>
  IN /\ since' = [since EXCEPT ![id] = Append(@, c)]
     /\ IF r = <<>> THEN pend' = DelP(pend, id) /\ queue' = Without(queue, id)
        ELSE pend' = SetP(pend, id, r[1]) /\ queue' = Append(Without(queue, id), id)
Write(id, o) ==
  /\ n < MaxWrites /\ n' = n + 1
  /\ ~(o = <<>> /\ id \notin DOMAIN m)
  /\ m' = HoldF(m, id, o)
  /\ Arrive([id |-> id, old |-> Opt(m, id), new |-> o, time |-> n,
             kind |-> IF o = <<>> THEN "REMOVE" ELSE IF id \in DOMAIN m THEN "UPDATE" ELSE "ADD"])
  /\ UNCHANGED <<hand, view, last>>
Take == /\ hand = <<>> /\ queue # <<>>
        /\ hand' = <<pend[queue[1]]>> /\ pend' = DelP(pend, queue[1]) /\ queue' = Tail(queue)
        /\ since' = [since EXCEPT ![queue[1]] = <<>>]
        /\ last' = Net(since[queue[1]])
        /\ UNCHANGED <<m, view, n>>
Recv == /\ hand # <<>> /\ hand' = <<>> /\ view' = HoldF(view, hand[1].id, hand[1].new)
        /\ last' = <<>> /\ UNCHANGED <<m, pend, queue, n, since>>
Next == Take \/ Recv \/ \E id \in Ids : Write(id, <<>>) \/ \E v \in Vals : Write(id, <<v>>)
Spec == Init /\ [][Next]_vars /\ WF_vars(Take) /\ WF_vars(Recv)

\* what is taken to be sent is the net change of everything since, except that a cancelled run may have been forgotten
TakenIsNet == hand # <<>> => LET h == hand[1] IN
                 /\ h.old = Opt(view, h.id)
                 /\ h.kind = (IF h.old = <<>> THEN "ADD" ELSE IF h.new = <<>> THEN "REMOVE" ELSE h.kind)
NetExact == [][hand = <<>> /\ hand' # <<>> => last' = hand']_vars
\* when nothing is on its way the subscriber holds what is there
Drained == (hand = <<>> /\ queue = <<>>) => view = m
PendIsQueue == {queue[i] : i \in DOMAIN queue} = DOMAIN pend /\ Len(queue) = Cardinality(DOMAIN pend)
Catches == []<>(n = MaxWrites => view = m)
=============================================================================
