-------------------------------- MODULE Register --------------------------------
(* One coherent register behind Get, Update and Pull (C14). Values are messages as in Masks. A stream st is
   [name, uo, mask, q, got, owed]: what it still has to or may say is q, a sequence of [v, must]. Paths in loose are
   compared with a tolerance by the model, so a change of nothing else need not be told. *)
EXTENDS Masks

Strict(m, M, loose) ==
  LET E == Range(M.p)
  IN [p \in {q \in DOMAIN m : q # "" /\ ~Covered(loose, q) /\ (M.nil \/ Covered(E, q))} |-> m[p]]
\* a stream as it opens on value v
Opened(name, uo, mask, v, must) == [name |-> name, uo |-> uo, mask |-> mask, got |-> 0, owed |-> 0, last |-> <<>>,
                              q |-> IF uo THEN <<>> ELSE <<[v |-> v, must |-> must]>>]
\* when an updates-only stream has begun to listen shows only by what it says; two changes are time enough
Told(st, before, after, loose) ==
  LET differs == Strict(before, st.mask, loose) # Strict(after, st.mask, loose)
  IN [st EXCEPT !.q = Append(@, [v |-> after, must |-> differs /\ (~st.uo \/ st.got > 0 \/ st.owed >= 2)]),
                !.owed = @ + (IF differs THEN 1 ELSE 0)]
\* the places of the queue a message v may be from
Places(st, v, seedless) ==
  {k \in 1..Len(st.q) : /\ \A j \in 1..(k - 1) : ~st.q[j].must
                        /\ LET less == IF st.got = 0 /\ ~st.uo THEN seedless ELSE {}
                               cut(m) == [p \in {q \in DOMAIN m : ~Covered(less, q)} |-> m[p]]
                           IN IsProjection(cut(st.q[k].v), st.mask, v)}
\* what has been said may be said again; after an attempt to change it, also what hasn't
Tried(st, v) == IF st.last = <<>> THEN [st EXCEPT !.last = <<v>>] ELSE st
Repeats(st, v) == Len(st.last) = 1 /\ IsProjection(st.last[1], st.mask, v)
Heard(st, k) == [st EXCEPT !.q = SubSeq(@, k + 1, Len(@)), !.got = @ + 1, !.last = <<st.q[k].v>>]
Quiet(st) == \A k \in 1..Len(st.q) : ~st.q[k].must
=============================================================================
