------------------------------ MODULE GroupTrace ------------------------------
(* Group executions recorded from pkg/group and the device groups built on it (C17).  Recorded: members starting and
   answering, the return, and what is true whenever nothing moves any more.  Not recorded, and so tried in every
   order: when the call saw which answer. *)
EXTENDS Group, TraceLib
ASSUME InitRegs
VARIABLES g, s, l
vars == <<g, s, l>>
Cur == Sessions[s].ev
Ev == Cur[l]
Is(e) == l <= Len(Cur) /\ Ev.e = e /\ l' = l + 1 /\ s' = s
Init == s \in 1..NSessions /\ l = 1 /\ g = New("all", 0, 0)
Kind == Cur[1].kind
Call == Is("call") /\ g' = New(Ev.strat, Ev.n, Ev.k)
StartE == Is("start") /\ CanStart(g, Ev.i) /\ g' = Start(g, Ev.i)
BackE == Is("back") /\ CanBack(g, Ev.i) /\ g' = Back(g, Ev.i, [ok |-> Ev.ok, msg |-> Ev.msg])
SeeE == /\ l <= Len(Cur) /\ UNCHANGED <<s, l>>
        /\ \E i \in Ids(g) : CanSee(g, i) /\ g' = See(g, i)
Pc == Is("pc") /\ g' = [g EXCEPT !.pc = TRUE]
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x + Sum(S \ {x})
\* what the caller got
Value(e) == LET R == Reported(g) IN
  CASE e.via = "slice" -> IF e.err # 0 \/ g.n = 0
                            THEN \A i \in DOMAIN e.msgs : e.msgs[i] = "" \/ (i \in Ids(g) /\ e.msgs[i] = "m" \o ToString(i))
                            ELSE /\ Len(e.msgs) = g.n
                                 /\ \A i \in Ids(g) : IF i \in R THEN e.msgs[i] = g.ans[i].msg
                                                      ELSE e.msgs[i] = "" \/ (g.strat \in Gather /\ e.msgs[i] = "m" \o ToString(i))
    [] e.via = "direct" -> IF g.strat \in {"one", "fast", "race"}
                             THEN R # {} => \E i \in R : e.idx = i /\ e.msgs = <<g.ans[i].msg>>
                             ELSE TRUE
    [] e.via \in {"light-get", "light-set"} -> (R # {} /\ e.err = 0) => e.val * Cardinality(R) = 840 * Sum(R)
    [] e.via \in {"onoff-get", "onoff-set"} -> (R # {} /\ e.err = 0) => e.val = IF \E i \in R : i % 2 = 0 THEN 1 ELSE 2
    [] OTHER -> TRUE
Stream == Kind \in {"onoff-pull", "light-pull"}
\* a member that is a stream is also over when its context has ended before its last value was taken
Drop == /\ l <= Len(Cur) /\ Stream /\ MayCancel(g) /\ UNCHANGED <<s, l>>
        /\ \E i \in Ids(g) : CanBack(g, i) /\ g' = Back(g, i, [ok |-> FALSE, msg |-> "dropped"])
\* nobody to ask: the strategies that want somebody may say so
Error(e) == IF g.n = 0 /\ g.strat \in {"any", "one", "fast", "race"} THEN TRUE
            ELSE \/ e.err = IF Err(g) # 0 /\ g.ans[Err(g)].msg = "dropped" THEN -1 ELSE Err(g)
                 \/ Stream /\ g.pc /\ e.err = -1  \* (the caller does not listen)
RetE == /\ Is("ret")
        /\ CanReturn(g) /\ Error(Ev) /\ Value(Ev)
        /\ g' = Return(g)
Quiet == /\ Is("quiet") /\ UNCHANGED g
         /\ Idle(g)
         /\ \A i \in In(g, "run") : /\ MustCancel(g) => Ev.ctx[i]
                                    /\ Ev.ctx[i] => MayCancel(g)
End == Is("end") /\ Ev.leaked = 0 /\ g.ret /\ UNCHANGED g
Next == Call \/ StartE \/ BackE \/ SeeE \/ Drop \/ Pc \/ RetE \/ Quiet \/ End
Spec == Init /\ [][Next]_vars
\* of the order in which answers were seen only the first of either kind matters
Of1(q) == IF q = <<>> THEN 0 ELSE q[1]
View == <<s, l, g.st, g.ans, g.ret, g.pc, g.strat, g.allowed, Of1(Failed(g)), Of1(Won(g)), Of1(g.order)>>
Progress == Note(s, l)
===============================================================================
