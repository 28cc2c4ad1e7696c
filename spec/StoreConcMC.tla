----------------------------- MODULE StoreConcMC -----------------------------
(* The optimistic protocol of GetAndUpdate and Collection.Delete, step by step, for a set of processes each running one
   operation: read the entry under the read lock, decide and compute outside the lock, re-validate and save under the
   write lock.  Checked: whatever the protocol commits or reports is what StoreConc!Effect says at that instant (so
   every history is linearizable with the commit, or the failing read, as linearization point), every mutating call
   takes effect at most once, and calls that lose a race leave the contents alone.

   Every complete behaviour is also printed as a schedule (which process moves next) for the driver to force on the real
   code.  With Revalidate = "none" the protocol is the naive one and the invariant fails (StoreConcBad.cfg). *)
EXTENDS StoreConc, Json, IOUtils, SequencesExt
CONSTANTS Procs, Revalidate, MaxRetry, Emit, Small
Op(o, absent, create, exp, chk, mode, v) ==
  [op |-> o, id |-> "x", absent |-> absent, create |-> create, allowMissing |-> FALSE, exp |-> exp, chk |-> chk,
   mode |-> mode, v |-> v]
Ops == { Op("write", FALSE, FALSE, <<>>, <<>>, "put", <<2, 2>>),
         Op("write", FALSE, TRUE, <<>>, <<>>, "inc", <<1, 0>>),
         Op("write", TRUE, TRUE, <<>>, <<>>, "put", <<1, 1>>),
         Op("write", FALSE, TRUE, << <<1, 1>> >>, <<>>, "putb", <<0, 2>>),
         Op("write", FALSE, FALSE, <<>>, <<1>>, "aft", <<0, 1>>),
         Op("delete", FALSE, FALSE, <<>>, <<>>, "put", <<0, 0>>),
         Op("delete", FALSE, FALSE, << <<1, 1>> >>, <<>>, "put", <<0, 0>>) }
MyOps == IF Small THEN {o \in Ops : o.absent \/ o.mode = "inc" \/ (o.op = "delete" /\ o.exp # <<>>)} ELSE Ops
Inits == { [x \in {} |-> Zero], [x \in {"x"} |-> <<1, 1>>], [x \in {"x"} |-> Zero] }

VARIABLES m0, m, ver, op, pc, seen, seenVer, tries, res, ok, sched
vars == <<m0, m, ver, op, pc, seen, seenVer, tries, res, ok, sched>>
\* schedules are only told apart when they are wanted
View == IF Emit THEN vars ELSE <<m0, m, ver, op, pc, seen, seenVer, tries, res, ok>>
Init == /\ m0 \in Inits /\ m = m0 /\ ver = 0
        /\ op \in [Procs -> MyOps]
        /\ pc = [p \in Procs |-> "start"] /\ seen = [p \in Procs |-> m] /\ seenVer = [p \in Procs |-> 0]
        /\ tries = [p \in Procs |-> 0]
        /\ res = [p \in Procs |-> "none"] /\ ok = TRUE /\ sched = <<>>
Log(p) == sched' = IF Emit THEN Append(sched, p) ELSE sched

\* read under the read lock; a call that fails here reports what it saw
Read(p) == /\ pc[p] = "start"
           /\ seen' = [seen EXCEPT ![p] = m] /\ seenVer' = [seenVer EXCEPT ![p] = ver]
           /\ LET outs == Effect(m, op[p])
                  o == CHOOSE o \in outs : TRUE
              IN IF o.code # "OK"
                 THEN pc' = [pc EXCEPT ![p] = "done"] /\ res' = [res EXCEPT ![p] = o.code]
                 ELSE pc' = [pc EXCEPT ![p] = "save"] /\ UNCHANGED res
           /\ Log(p)
           /\ UNCHANGED <<m0, m, ver, op, tries, ok>>
Same(p) == CASE Revalidate = "none" -> TRUE
             [] op[p].op = "delete" -> seenVer[p] = ver
             [] OTHER -> /\ (op[p].id \in DOMAIN m) = (op[p].id \in DOMAIN seen[p])
                         /\ OldOf(m, op[p].id) = OldOf(seen[p], op[p].id)
\* what the call computed from what it read
Mine(p) == CHOOSE o \in Effect(seen[p], op[p]) : TRUE
Save(p) == /\ pc[p] = "save"
           /\ IF Same(p)
              THEN LET o == Mine(p)
                       mm == IF op[p].op = "delete" THEN DropC(m, op[p].id) ELSE PutC(m, op[p].id, o.ret)
                   IN /\ m' = mm /\ ver' = ver + 1
                      /\ res' = [res EXCEPT ![p] = "OK"]
                      /\ pc' = [pc EXCEPT ![p] = "done"]
                      /\ ok' = (ok /\ Out("OK", o.ret, mm) \in Effect(m, op[p]))
                      /\ UNCHANGED <<seen, seenVer, tries>>
              ELSE /\ UNCHANGED <<m, ver>>
                   /\ IF op[p].op = "delete" /\ tries[p] < MaxRetry
                      THEN LET o == CHOOSE o \in Effect(m, op[p]) : TRUE
                           IN /\ seen' = [seen EXCEPT ![p] = m] /\ seenVer' = [seenVer EXCEPT ![p] = ver]
                              /\ tries' = [tries EXCEPT ![p] = @ + 1]
                              /\ IF o.code # "OK"
                                 THEN pc' = [pc EXCEPT ![p] = "done"] /\ res' = [res EXCEPT ![p] = o.code]
                                 ELSE UNCHANGED <<pc, res>>
                              /\ UNCHANGED ok
                      ELSE /\ res' = [res EXCEPT ![p] = IF op[p].absent THEN "AlreadyExists"
                                                        ELSE IF op[p].op = "delete" THEN "Unavailable" ELSE "Aborted"]
                           /\ pc' = [pc EXCEPT ![p] = "done"]
                           /\ ok' = (ok /\ (op[p].absent => op[p].id \in DOMAIN m))
                           /\ UNCHANGED <<seen, seenVer, tries>>
           /\ Log(p)
           /\ UNCHANGED <<m0, op>>
Next == \E p \in Procs : Read(p) \/ Save(p)
Spec == Init /\ [][Next]_vars

Linearizable == ok
\* successful increments are never lost: with only increments running, the value is their number
Done == \A p \in Procs : pc[p] = "done"
NoLostIncrement == (Done /\ \A p \in Procs : op[p].mode = "inc")
                   => OldOf(m, "x")[1] = OldOf(m0, "x")[1] + Cardinality({p \in Procs : res[p] = "OK"})
TwoAdds == Done => Cardinality({p \in Procs : op[p].absent /\ res[p] = "OK"})
                     <= 1 + Cardinality({p \in Procs : op[p].op = "delete" /\ res[p] = "OK"})
\* schedules, one line each
EmitSched == (Emit /\ Done) => PrintT("SCHED " \o ToJson([init |-> m0, ops |-> op, sched |-> sched]))
=============================================================================
