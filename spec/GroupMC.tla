------------------------------- MODULE GroupMC -------------------------------
(* Every strategy, number of members, answer and order of completion.  Members back at the same time are seen in any
   order.  The contract as the callers know it is checked on what the machine returns; with Emit, the members'
   completion orders are printed as scripts. *)
EXTENDS Group, TLC, Json
CONSTANTS MaxN, Strats, Emit
VARIABLES g, back
vars == <<g, back>>
Ans == {[ok |-> TRUE, msg |-> "m"], [ok |-> FALSE, msg |-> ""]}
Init == \E strat \in Strats, n \in 0..MaxN : \E k \in IF strat = "upto" THEN 0..n ELSE {0} :
          g = New(strat, n, k) /\ back = <<>>
\* (emitted behaviours: one thing at a time)
OneByOne == Emit => /\ \A j \in Ids(g) : ~CanSee(g, j)
                    /\ \A j \in Ids(g) : ~CanStart(g, j)
DoStart == \E i \in Ids(g) : CanStart(g, i) /\ (Emit => \A j \in 1..i-1 : ~CanStart(g, j)) /\ g' = Start(g, i) /\ UNCHANGED back
DoBack == \E i \in Ids(g), a \in Ans : CanBack(g, i) /\ OneByOne /\ g' = Back(g, i, a) /\ back' = Append(back, <<i, a.ok>>)
\* the call sees answers in some order
DoSee == \E i \in Ids(g) : CanSee(g, i) /\ g' = See(g, i) /\ UNCHANGED back
DoReturn == CanReturn(g) /\ g' = Return(g) /\ UNCHANGED back
Next == DoStart \/ DoBack \/ DoSee \/ DoReturn
Spec == Init /\ [][Next]_vars /\ WF_vars(DoStart) /\ WF_vars(DoBack) /\ WF_vars(DoSee) /\ WF_vars(DoReturn)

Fails == {i \in Ids(g) : g.st[i] = "seen" /\ ~g.ans[i].ok}
Wins == {i \in Ids(g) : g.st[i] = "seen" /\ g.ans[i].ok}
Failure == Err(g) # 0
\* the contract, on the members' answers alone
Contract == g.ret =>
  CASE g.strat = "all" -> (Failure <=> Fails # {}) /\ AllSeen(g)
    [] g.strat = "most" -> (Failure <=> 2 * Cardinality(Fails) > g.n) /\ AllSeen(g)
    [] g.strat = "any" -> (Failure <=> g.n > 0 /\ Cardinality(Fails) = g.n) /\ AllSeen(g)
    [] g.strat = "upto" -> (Failure <=> Cardinality(Fails) > g.allowed /\ Fails # {}) /\ AllSeen(g)
    [] g.strat = "one" -> /\ Failure <=> Wins = {} /\ g.n > 0
                          /\ Cardinality(Wins) <= 1
                          /\ \A i \in Wins : In(g, "seen") = 1..i
                          /\ Failure => Err(g) = 1
    [] g.strat = "fast" -> (Failure <=> Cardinality(Fails) = g.n /\ g.n > 0) /\ Cardinality(Wins) <= 1
    [] g.strat = "race" -> Len(g.order) <= 1 /\ (Failure <=> Fails # {})
FirstError == (g.ret /\ Failure) => Err(g) = Failed(g)[1]
Own == g.ret => Reported(g) \subseteq Wins
CancelSafe == MustCancel(g) => (MayCancel(g) \/ g.ret)
\* an outcome once decided stays
Stable == [][(Decided(g) /\ Lost(g)) => (Lost(g') /\ Failed(g')[1] = Failed(g)[1])]_vars
Ends == <>(g.ret)
AllBack == <>(\A i \in Ids(g) : g.st[i] \in {"back", "seen"} \/ (g.strat = "one" /\ g.st[i] = "idle"))
EmitScript == (Emit /\ g.ret /\ \A i \in Ids(g) : g.st[i] \in {"back", "seen"} \/ (g.strat = "one" /\ g.st[i] = "idle")) => PrintT("SCRIPT " \o ToJson([strat |-> g.strat, n |-> g.n, k |-> g.allowed, back |-> back]))
=============================================================================
