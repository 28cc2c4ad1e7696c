---------------------------- MODULE StoreConcTrace ----------------------------
(* Histories of overlapping calls recorded from the real code, judged by linearizability with respect to
   StoreConc!Effect: Lin steps are silent and may only happen while the call is pending. *)
EXTENDS StoreConc, TraceLib
ASSUME InitRegs
VARIABLES m, pend, s, l
vars == <<m, pend, s, l>>
Evs == Sessions[s].ev
Ev == Evs[l]
Is(e) == l <= Len(Evs) /\ Ev.e = e /\ l' = l + 1 /\ s' = s
NoProc == [x \in {} |-> 0]
Init == s \in 1..NSessions /\ l = 1 /\ m = Sessions[s].cfg.init /\ pend = NoProc

Inv == /\ Is("inv")
       /\ pend' = [x \in DOMAIN pend \cup {Ev.p} |->
                     IF x = Ev.p THEN [at |-> l, lin |-> FALSE, dirty |-> FALSE] ELSE pend[x]]
       /\ UNCHANGED m
Ret == /\ Is("ret")
       /\ Ev.p \in DOMAIN pend /\ pend[Ev.p].lin
       /\ pend' = [x \in DOMAIN pend \ {Ev.p} |-> pend[x]]
       /\ UNCHANGED m
\* all calls returned: the getters agree
Final == /\ Is("final") /\ Ev.m = m /\ UNCHANGED <<m, pend>>
\* too many calls to order one by one: successful increments must add up
Total == /\ Is("total") /\ Ev.final = Ev.init + Ev.sum /\ UNCHANGED <<m, pend>>

\* List returns every message once (its order is C01's business)
IsList(lst, mm) == /\ Len(lst) = Cardinality(DOMAIN mm)
                   /\ \A v \in {mm[x] : x \in DOMAIN mm} :
                        Cardinality({i \in DOMAIN lst : lst[i] = v}) = Cardinality({x \in DOMAIN mm : mm[x] = v})
RaceCodes == {"Aborted", "Unavailable", "AlreadyExists", "FailedPrecondition", "NotFound"}
Lin(p) ==
  /\ l <= Len(Evs) /\ Ev.e = "ret"
  /\ ~pend[p].lin
  /\ LET c == Evs[pend[p].at]
         e == Effect(m, c.op)
     IN \/ \E o \in e :
             /\ o.code = c.code
             /\ IF c.op.op = "list" THEN IsList(c.lst, m) ELSE c.code = "OK" => c.ret = o.ret
             /\ c.op.op = "get" /\ c.code = "OK" => c.ret = o.ret
             /\ m' = o.m
             /\ pend' = [x \in DOMAIN pend |->
                  IF x = p THEN [pend[x] EXCEPT !.lin = TRUE]
                  ELSE IF Mutates(c.op) /\ o.code = "OK" /\ Evs[pend[x].at].op.id = c.op.id
                       THEN [pend[x] EXCEPT !.dirty = TRUE] ELSE pend[x]]
        \/ /\ c.code \in RaceCodes /\ pend[p].dirty /\ Mutates(c.op)
           /\ pend' = [pend EXCEPT ![p].lin = TRUE]
           /\ UNCHANGED m
  /\ UNCHANGED <<s, l>>
Next == Inv \/ Ret \/ Final \/ Total \/ \E p \in DOMAIN pend : Lin(p)
Spec == Init /\ [][Next]_vars
Progress == Note(s, l)
=============================================================================
