-------------------------------- MODULE Group --------------------------------
(* One execution of a group of members (C17): what the caller's strategy promises, decided on what the members
   answered in the order the answers were seen.

   A member is idle, running, back (it has returned and nobody has looked at that yet) or seen.  An answer is
   [ok, msg]; msg "" is no message. *)
EXTENDS Integers, Sequences, FiniteSets
Parallel == {"all", "most", "any", "upto", "fast", "race"}
Gather == {"all", "most", "any", "upto"}
AtLeast0(x) == IF x < 0 THEN 0 ELSE x   \* nobody fails: no error to return
Allowed(strat, n, k) == CASE strat = "all" -> 0 [] strat = "most" -> n \div 2 [] strat = "any" -> AtLeast0(n - 1) [] OTHER -> AtLeast0(k)

NoAns == [ok |-> TRUE, msg |-> ""]
New(strat, n, k) == [strat |-> strat, n |-> n, allowed |-> Allowed(strat, n, k), st |-> [i \in 1..n |-> "idle"],
                     ans |-> [i \in 1..n |-> NoAns], order |-> <<>>, ret |-> FALSE, pc |-> FALSE]

Ids(g) == 1..g.n
In(g, x) == {i \in Ids(g) : g.st[i] = x}
Failed(g) == SelectSeq(g.order, LAMBDA i : ~g.ans[i].ok)
Won(g) == SelectSeq(g.order, LAMBDA i : g.ans[i].ok)
AllSeen(g) == Len(g.order) = g.n

\* more failures than the strategy accepts
Lost(g) == g.strat \in Gather /\ Len(Failed(g)) > g.allowed
\* nothing that is still to come changes the outcome
Decided(g) ==
  CASE g.strat \in Gather -> Lost(g) \/ Len(Failed(g)) + (g.n - Len(g.order)) <= g.allowed
    [] g.strat \in {"one", "fast"} -> AllSeen(g) \/ Won(g) # <<>>
    [] g.strat = "race" -> AllSeen(g) \/ g.order # <<>>
\* the call may return: when everybody is back, or as soon as there is a winner
Complete(g) == IF g.strat \in Gather THEN AllSeen(g) ELSE Decided(g)

CanStart(g, i) == /\ g.st[i] = "idle"
                  /\ IF g.strat = "one" THEN ~g.ret /\ ~Decided(g) /\ \A j \in 1..i-1 : g.st[j] = "seen" ELSE TRUE
Start(g, i) == [g EXCEPT !.st[i] = "run"]
CanBack(g, i) == g.st[i] = "run"
Back(g, i, a) == [g EXCEPT !.st[i] = "back", !.ans[i] = a]
CanSee(g, i) == g.st[i] = "back" /\ ~g.ret /\ (g.strat \in Gather \/ ~Decided(g))
See(g, i) == [g EXCEPT !.st[i] = "seen", !.order = Append(@, i)]

\* which member's error the call returns; 0 for none
Err(g) == CASE g.strat \in Gather -> IF Lost(g) THEN Failed(g)[1] ELSE 0
            [] g.strat \in {"one", "fast"} -> IF Won(g) = <<>> /\ g.n > 0 THEN Failed(g)[1] ELSE 0
            [] g.strat = "race" -> IF g.n > 0 /\ ~g.ans[g.order[1]].ok THEN g.order[1] ELSE 0
\* whose answers the call reports
Reported(g) == CASE g.strat \in Gather -> {Won(g)[j] : j \in DOMAIN Won(g)}
                 [] g.strat \in {"one", "fast"} -> IF Won(g) = <<>> THEN {} ELSE {Won(g)[1]}
                 [] g.strat = "race" -> IF g.n > 0 /\ g.ans[g.order[1]].ok THEN {g.order[1]} ELSE {}
CanReturn(g) == ~g.ret /\ Complete(g)
Return(g) == [g EXCEPT !.ret = TRUE]

\* the contexts of the members still running: they have ended, they have not (the caller's own aside)
MustCancel(g) == g.strat \in Parallel /\ (g.ret \/ Lost(g))
MayCancel(g) == g.pc \/ g.ret \/ Decided(g)

\* nothing the call could do by itself is left to do
Idle(g) == /\ \A i \in Ids(g) : ~CanStart(g, i) /\ ~CanSee(g, i)
           /\ ~CanReturn(g)
==============================================================================
