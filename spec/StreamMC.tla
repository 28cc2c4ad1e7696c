------------------------------ MODULE StreamMC ------------------------------
(* Every short write history seen by a subscriber there from some point on, with any predicate, mask and equivalence:
   the script delivered step by step folds to the filtered, masked collection; kinds describe the view. *)
EXTENDS Stream
CONSTANTS Ids, Vals, MaxLen
VARIABLES m, n, sub, view, last
vars == <<m, n, sub, view, last>>
MCVals == {<<0, 0>>, <<1, 0>>, <<1, 1>>}
NoF == [x \in {} |-> <<0, 0>>]
Preds == {[all |-> TRUE, acc |-> {}]} \cup [all : {FALSE}, acc : SUBSET (Ids \X {v[1] : v \in Vals})]
Subs == [mask : {"", "a"}, eq : {"none", "equal", "a"}, inc : Preds]
Contents == UNION {[D -> Vals] : D \in SUBSET Ids}
Init == /\ m \in Contents /\ n = 0 /\ sub \in Subs
        /\ view = MapF(sub.mask, Filtered(sub.inc, m)) /\ last = <<>>
\* deliver what the write is to this subscriber
Deliver(e) ==
  LET i == Include(sub.inc, e)
      d == IF i = <<>> THEN <<>> ELSE <<Masked(sub.mask, i[1])>>
      sup == d # <<>> /\ d[1].new # <<>> /\ e.id \in DOMAIN view /\ Equiv(sub.eq, view[e.id], d[1].new[1])
  IN IF d = <<>> \/ sup THEN last' = <<>> /\ view' = view ELSE last' = d /\ view' = Apply(view, d[1])
Write(id, v) == m' = SetF(m, id, v) /\
  Deliver([id |-> id, kind |-> IF id \in DOMAIN m THEN "UPDATE" ELSE "ADD",
           old |-> IF id \in DOMAIN m THEN <<m[id]>> ELSE <<>>, new |-> <<v>>])
Remove(id) == id \in DOMAIN m /\ m' = DelF(m, id) /\
  Deliver([id |-> id, kind |-> "REMOVE", old |-> <<m[id]>>, new |-> <<>>])
Next == n < MaxLen /\ n' = n + 1 /\ UNCHANGED sub /\ \E id \in Ids : Remove(id) \/ \E v \in Vals : Write(id, v)
Spec == Init /\ [][Next]_vars

FilteredNow == MapF(sub.mask, Filtered(sub.inc, m))
\* the view is the filtered collection, up to what the equivalence does not tell apart
ViewIsFiltered == /\ DOMAIN view = DOMAIN FilteredNow
                  /\ \A x \in DOMAIN view : view[x] = FilteredNow[x] \/ Equiv(sub.eq, view[x], FilteredNow[x])
ExactWithout == sub.eq = "none" => view = FilteredNow
KindsFit == [][last' # <<>> => LET e == last'[1] IN
                 CASE e.kind = "ADD" -> e.id \notin DOMAIN view /\ e.old = <<>> /\ e.new # <<>>
                   [] e.kind = "UPDATE" -> e.id \in DOMAIN view /\ e.old # <<>> /\ e.new # <<>>
                   [] e.kind = "REMOVE" -> e.id \in DOMAIN view /\ e.old # <<>> /\ e.new = <<>>]_vars
NothingEquivalent == [][last' # <<>> /\ last'[1].new # <<>> /\ last'[1].id \in DOMAIN view =>
                          ~Equiv(sub.eq, view[last'[1].id], last'[1].new[1])]_vars
=============================================================================
