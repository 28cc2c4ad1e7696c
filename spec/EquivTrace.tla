------------------------------- MODULE EquivTrace -------------------------------
(* One subscription to a resource with an equivalence (C16): nothing equivalent to what the subscriber holds is
   delivered, nothing else is suppressed.  Values are [n |-> in 64ths, o |-> integer]; two are equivalent when their o
   are equal and their n at most cfg.m apart, unset (0) being close to nothing but itself. *)
EXTENDS Integers, Sequences, FiniteSets, TraceLib
ASSUME InitRegs
VARIABLES held, at, seeds, s, l
vars == <<held, at, seeds, s, l>>
Cfg == Sessions[s].cfg
Ev == Sessions[s].ev[l]
Is(e) == l <= Len(Sessions[s].ev) /\ Ev.e = e /\ l' = l + 1 /\ s' = s
Abs(n) == IF n < 0 THEN -n ELSE n
\* <<>> is absent
Eq(a, b) == IF a = <<>> \/ b = <<>> THEN a = b
            ELSE a[2] = b[2] /\ (a[1] = 0 <=> b[1] = 0) /\ Abs(a[1] - b[1]) <= Cfg.m
\* what a subscriber with this read mask sees
See(v) == IF v = <<>> THEN v ELSE IF Cfg.mask = "n" THEN <<v[1], 0>> ELSE IF Cfg.mask = "o" THEN <<0, v[2]>> ELSE v
Ids == DOMAIN Cfg.ws
W(id) == Cfg.ws[id]    \* what was in the store first, then everything that was written; absent is <<>>
Unknown == <<0>>
Init == /\ s \in 1..NSessions /\ l = 1 /\ seeds = TRUE
        /\ at = [id \in Ids |-> 1]
        /\ held = [id \in Ids |-> IF W(id)[1] = <<>> THEN <<>> ELSE Unknown]
Seed == /\ Is("got") /\ Ev.seed /\ seeds /\ ~Cfg.only
        /\ held[Ev.id] = Unknown /\ Ev.v = See(W(Ev.id)[1])
        /\ held' = [held EXCEPT ![Ev.id] = Ev.v] /\ UNCHANGED <<at, seeds>>
\* the writes to id in (i, j] could all have been withheld
Same(id, i, j) == \A k \in i + 1..j : IF held[id] = Unknown THEN Eq(See(W(id)[k - 1]), See(W(id)[k])) ELSE Eq(held[id], See(W(id)[k]))
Got == /\ Is("got") /\ ~Ev.seed
       /\ IF Cfg.only THEN TRUE ELSE \A id \in Ids : held[id] # Unknown
       /\ seeds' = FALSE
       /\ \E j \in at[Ev.id] + 1..Len(W(Ev.id)) :
            /\ Ev.v = See(W(Ev.id)[j])
            /\ IF Cfg.bp THEN Same(Ev.id, at[Ev.id], j - 1) ELSE TRUE
            /\ at' = [at EXCEPT ![Ev.id] = j]
       /\ IF held[Ev.id] = Unknown THEN TRUE ELSE ~Eq(held[Ev.id], Ev.v)
       /\ held' = [held EXCEPT ![Ev.id] = Ev.v]
\* everything was written, and read
End == /\ Is("end")
       /\ \A id \in Ids : LET n == Len(W(id)) IN
            IF Cfg.bp THEN Same(id, at[id], n)
            ELSE IF held[id] = Unknown THEN Cfg.only ELSE Eq(held[id], See(W(id)[n]))
       /\ UNCHANGED <<held, at, seeds>>
Next == Seed \/ Got \/ End
Spec == Init /\ [][Next]_vars
Progress == Note(s, l)
=============================================================================
