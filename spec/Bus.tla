---------------------------------- MODULE Bus ----------------------------------
(* The event bus with listeners that come, go and stop receiving at any moment (C10).

   A sender takes a place in the queue of every listener registered at that moment, and then, per listener, waits for
   its turn, holds the listener's lock for reading while it hands over the event, and leaves.  Handing over is given up
   when the listener's context is done.  Closing the channel takes the lock for writing.

   Bugs switches pieces of that design off; each of them breaks one of the properties (BusBad*.cfg). *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Senders, Listeners, NSend, Bugs
VARIABLES lis, closed, reading, q, n, pend, hold, quit, whole, got, after
vars == <<lis, closed, reading, q, n, pend, hold, quit, whole, got, after>>

Init == /\ lis = [l \in Listeners |-> "no"] /\ closed = [l \in Listeners |-> FALSE]
        /\ reading = [l \in Listeners |-> TRUE] /\ q = [l \in Listeners |-> <<>>]
        /\ n = [p \in Senders |-> 0] /\ pend = [p \in Senders |-> {}]
        /\ hold = {}                                    \* <<p, l>>
        /\ quit = [p \in Senders |-> FALSE]             \* the send's own context is done
        /\ whole = [p \in Senders |-> {}]
        /\ got = [l \in Listeners |-> <<>>]
        /\ after = FALSE                                \* something was handed to a closed channel
Busy(p) == pend[p] # {} \/ whole[p] # {}

Listen(l) == /\ lis[l] = "no" /\ lis' = [lis EXCEPT ![l] = "open"]
             /\ UNCHANGED <<closed, reading, q, n, pend, hold, quit, whole, got, after>>
Cancel(l) == /\ lis[l] = "open" /\ lis' = [lis EXCEPT ![l] = "done"]
             \* whoever is sending cannot count on this one any more
             /\ whole' = [p \in Senders |-> whole[p] \ {l}]
             /\ UNCHANGED <<closed, reading, q, n, pend, hold, quit, got, after>>
Stop(l) == /\ lis[l] = "done" /\ ~closed[l]
           /\ "noLock" \in Bugs \/ \A p \in Senders : <<p, l>> \notin hold
           /\ closed' = [closed EXCEPT ![l] = TRUE]
           /\ UNCHANGED <<lis, reading, q, n, pend, hold, quit, whole, got, after>>
Walk(l) == /\ lis[l] = "open" /\ reading[l] /\ reading' = [reading EXCEPT ![l] = FALSE]
           /\ UNCHANGED <<lis, closed, q, n, pend, hold, quit, whole, got, after>>
Start(p) == /\ ~Busy(p) /\ n[p] < NSend
            /\ n' = [n EXCEPT ![p] = @ + 1]
            /\ LET T == {l \in Listeners : lis[l] # "no" /\ ~closed[l]}
               IN /\ pend' = [pend EXCEPT ![p] = T]
                  /\ q' = [l \in Listeners |-> IF l \in T THEN Append(q[l], p) ELSE q[l]]
                  /\ whole' = [whole EXCEPT ![p] = {l \in Listeners : lis[l] = "open"}]
            /\ quit' = [quit EXCEPT ![p] = FALSE]
            /\ UNCHANGED <<lis, closed, reading, hold, got, after>>
Quit(p) == /\ Busy(p) /\ ~quit[p] /\ quit' = [quit EXCEPT ![p] = TRUE]
           /\ UNCHANGED <<lis, closed, reading, q, n, pend, hold, whole, got, after>>
Turn(p, l) == "noTurn" \in Bugs \/ (q[l] # <<>> /\ Head(q[l]) = p)
Enter(p, l) == /\ l \in pend[p] /\ <<p, l>> \notin hold /\ Turn(p, l)
               /\ hold' = hold \cup {<<p, l>>}
               /\ UNCHANGED <<lis, closed, reading, q, n, pend, quit, whole, got, after>>
Without(s, p) == SelectSeq(s, LAMBDA x : x # p)
Leave(p, l) == /\ hold' = hold \ {<<p, l>>} /\ pend' = [pend EXCEPT ![p] = @ \ {l}]
               /\ q' = [q EXCEPT ![l] = Without(@, p)]
\* once closed there is no channel to give to, but without the lock it may close in the hands of a sender
Give(p, l) == /\ <<p, l>> \in hold /\ reading[l] /\ (~closed[l] \/ "noLock" \in Bugs)
              /\ got' = [got EXCEPT ![l] = Append(@, <<p, n[p]>>)]
              /\ after' = (after \/ closed[l])
              /\ Leave(p, l) /\ UNCHANGED <<lis, closed, reading, n, quit, whole>>
Skip(p, l) == /\ <<p, l>> \in hold /\ lis[l] = "done" /\ "noSkip" \notin Bugs
              /\ Leave(p, l) /\ UNCHANGED <<lis, closed, reading, n, quit, whole, got, after>>
GiveUp(p, l) == /\ l \in pend[p] /\ quit[p]
                /\ Leave(p, l) /\ UNCHANGED <<lis, closed, reading, n, quit, whole, got, after>>
\* everyone it could count on throughout got it
Reached(p) == \A l \in whole[p] : <<p, n[p]>> \in {got[l][i] : i \in DOMAIN got[l]}
Return(p) == /\ whole[p] # {} /\ pend[p] = {} /\ (quit[p] \/ Reached(p))
             /\ whole' = [whole EXCEPT ![p] = {}]
             /\ UNCHANGED <<lis, closed, reading, q, n, pend, hold, quit, got, after>>
Next == \/ \E l \in Listeners : Listen(l) \/ Cancel(l) \/ Stop(l) \/ Walk(l)
        \/ \E p \in Senders : Start(p) \/ Quit(p) \/ Return(p)
        \/ \E p \in Senders, l \in Listeners : Enter(p, l) \/ Give(p, l) \/ Skip(p, l) \/ GiveUp(p, l)
\* who stops receiving cancels; everyone cancels in the end; nobody has to listen, send or give up
Fair == /\ \A l \in Listeners : WF_vars(Cancel(l)) /\ WF_vars(Stop(l))
        /\ \A p \in Senders : WF_vars(Return(p)) /\ WF_vars(\E l \in Listeners : Enter(p, l))
                              /\ WF_vars(\E l \in Listeners : Give(p, l) \/ Skip(p, l))
Spec == Init /\ [][Next]_vars /\ Fair

NothingAfterClose == ~after
Once == \A l \in Listeners : \A i, j \in DOMAIN got[l] : i # j => got[l][i] # got[l][j]
SenderOrder == \A l \in Listeners : \A i, j \in DOMAIN got[l] :
                 (i < j /\ got[l][i][1] = got[l][j][1]) => got[l][i][2] < got[l][j][2]
\* a sender with nobody left to wait for has reached everyone it should have
Reaches == \A p \in Senders : (pend[p] = {} /\ ~quit[p]) => Reached(p)
SendsEnd == \A p \in Senders : Busy(p) ~> ~Busy(p)
Closes == \A l \in Listeners : (lis[l] = "done") ~> closed[l]
=============================================================================
