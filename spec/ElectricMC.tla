------------------------------ MODULE ElectricMC ------------------------------
(* Operations on the modes, in steps as callers that overlap take them: with Locked, one at a time; without, each
   looks and then acts on what it saw (ElectricBadLock).  With Checks FALSE an update does not look for another normal
   mode (ElectricBadUpdate).  The invariants are those of the model's documentation.  With Emit, one path to every
   state and every operation in it is printed. *)
EXTENDS Electric, TLC, Json
CONSTANTS Names, Values, Procs, Locked, Checks, Emit
VARIABLES z, now, saw, h
vars == <<z, now, saw, h>>
View == IF Emit THEN <<z.modes, z.aid, z.act.n, z.act.v, z.chg>> ELSE <<z, now, saw>>
Modes == [n : BOOLEAN, v : Values, st : {<<>>}]
Masks == {<<>>, <<<<"normal">>>>, <<<<"title">>>>}
Idle == [op |-> "none"]
Empty == [x \in {} |-> Blank]
Init == /\ z = [modes |-> Empty, aid |-> "", act |-> Blank, chg |-> FALSE]
        /\ now = 1 /\ saw = [p \in Procs |-> [o |-> Idle, z |-> z]] /\ h = <<>>
Ops == [op : {"add"}, id : Names, x : Modes] \cup [op : {"update"}, id : Names, x : Modes, mask : Masks, create : {FALSE, TRUE}]
       \cup [op : {"delete"}, id : Names, allow : BOOLEAN] \cup [op : {"set"}, id : Names, x : Modes]
       \cup [op : {"change"}, id : Names] \cup [op : {"clear"}]
Unchecked(y, o) == IF Checks \/ o.op # "update" THEN Effect(y, o, "", {now})
                   ELSE IF o.id \notin Ids(y) /\ ~o.create THEN Fail(y, {"NotFound"})
                   ELSE LET x == Merge(IF o.id \in Ids(y) THEN y.modes[o.id] ELSE Blank, o.x, o.mask) IN Done(Put(y, o.id, x), o.id, x)
\* what an operation that saw y does to the state now: it puts, drops or activates what it decided to
Apply(y, r, o) == CASE r.code # "OK" -> z
                    [] o.op \in {"add", "update"} -> Put(z, r.id, r.mode)
                    [] o.op = "delete" -> Drop(z, o.id)
                    [] OTHER -> Activate(z, r.id, r.mode)
Atomic == /\ Locked /\ \E o \in Ops : \E r \in Unchecked(z, o) :
                        z' = r.z /\ h' = (IF Emit THEN Append(h, o) ELSE h)
          /\ now' = (IF Emit THEN now ELSE 3 - now) /\ UNCHANGED saw
Look(p) == ~Locked /\ saw[p].o.op = "none" /\ \E o \in Ops : saw' = [saw EXCEPT ![p] = [o |-> o, z |-> z]] /\ UNCHANGED <<z, now, h>>
Act(p) == /\ ~Locked /\ saw[p].o.op # "none"
          /\ \E r \in Unchecked(saw[p].z, saw[p].o) : z' = Apply(saw[p].z, r, saw[p].o)
          /\ saw' = [saw EXCEPT ![p].o = Idle] /\ UNCHANGED <<now, h>>
Next == Atomic \/ \E p \in Procs : Look(p) \/ Act(p)
Spec == Init /\ [][Next]_vars
EmitPath == Emit => PrintT("SCRIPT " \o ToJson(h'))
----
AtMostOneNormal == OneNormal(z)
TheActiveExists == ActiveExists(z)
\* the active mode is not deleted
NeverDeleted == [][z.chg => z.aid \in DOMAIN z'.modes]_vars
\* another mode is made active by change and clear with the clock's time (set says its own)
Stamped == [][z'.aid # z.aid => z'.act.st \in {<<>>, <<now>>}]_vars
===============================================================================
