------------------------------- MODULE Stream -------------------------------
(* What a subscriber to a resource written by one writer at a time is told (C04), as a function of the contents when it
   subscribed and the log of successful writes since; and what the same stream is through an include predicate (C08).

   contents: id -> value (a pair), log entry: [id, kind, old, new] with old/new sequences of length 0 or 1.
   subscription: [only, mask, eq, pid] - updates-only, read mask, the equivalence of the resource, "" or the single id;
   inc: [all, acc]: acc is the predicate's truth table, the set of <<id, a>> it accepts (a being the first field). *)
EXTENDS Integers, Sequences, FiniteSets

Proj(mask, v) == CASE mask = "a" -> <<v[1], 0>> [] mask = "b" -> <<0, v[2]>> [] OTHER -> v
ProjO(mask, o) == IF o = <<>> THEN <<>> ELSE <<Proj(mask, o[1])>>
Equiv(eq, v, w) == CASE eq = "none" -> FALSE [] eq = "equal" -> v = w [] eq = "a" -> v[1] = w[1]
Accepts(inc, id, v) == inc.all \/ <<id, v[1]>> \in inc.acc
\* the collection as the predicate shows it
Filtered(inc, m) == [x \in {y \in DOMAIN m : Accepts(inc, y, m[y])} |-> m[x]]
\* what a write to the collection is to a collection of only the accepted items: a change of it, or nothing
Include(inc, e) ==
  LET was == e.old # <<>> /\ Accepts(inc, e.id, e.old[1])
      is  == e.new # <<>> /\ Accepts(inc, e.id, e.new[1])
  IN CASE ~was /\ ~is -> <<>>
       [] ~was /\ is  -> <<[e EXCEPT !.kind = "ADD", !.old = <<>>]>>
       [] was /\ ~is  -> <<[e EXCEPT !.kind = "REMOVE", !.new = <<>>]>>
       [] was /\ is   -> <<[e EXCEPT !.kind = "UPDATE"]>>
Masked(mask, e) == [e EXCEPT !.old = ProjO(mask, e.old), !.new = ProjO(mask, e.new)]

\* ids of f in the order of `order`
InOrder(f, order) == SelectSeq(order, LAMBDA x : x \in DOMAIN f)

\* folding a stream
SetF(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
DelF(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Apply(f, e) == IF e.kind = "REMOVE" THEN DelF(f, e.id) ELSE SetF(f, e.id, e.new[1])
RECURSIVE FoldS(_, _)
FoldS(f, es) == IF es = <<>> THEN f ELSE FoldS(Apply(f, Head(es)), Tail(es))
MapF(mask, f) == [x \in DOMAIN f |-> Proj(mask, f[x])]
=============================================================================
