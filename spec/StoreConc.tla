------------------------------ MODULE StoreConc ------------------------------
(* The atomic meaning of the write and read operations of resource.Value and resource.Collection, for callers that
   overlap.  Messages are abstracted to a pair <<a, b>> of integers (two fields, so that masked writes exist); contents
   are a function from id to pair.  Effect(m, op) is the one-at-a-time meaning of a call: its outcome and what it leaves
   behind.  Everything a concurrent history shows must be explained by Effects taken one after the other, each at some
   instant between the call and its return; a call that lost a race may instead report Aborted or Unavailable and have
   no effect.

   op: [op |-> "write" | "delete" | "get" | "list", id, absent, create, allowMissing, exp (<<>> or <<pair>>),
        chk (<<>> or <<n>>: the check refuses old.a < n), mode, v] *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Zero == <<0, 0>>
OldOf(m, id) == IF id \in DOMAIN m THEN m[id] ELSE Zero
PutC(m, id, v) == [x \in DOMAIN m \cup {id} |-> IF x = id THEN v ELSE m[x]]
DropC(m, id) == [x \in DOMAIN m \ {id} |-> m[x]]

\* what a successful write stores given the current value
NewVal(old, op) ==
  CASE op.mode = "put"  -> op.v
    [] op.mode = "puta" -> <<op.v[1], old[2]>>                \* update mask a
    [] op.mode = "putb" -> <<old[1], op.v[2]>>                \* update mask b
    [] op.mode = "inc"  -> <<old[1] + op.v[1], old[2]>>       \* before-interceptor adds old.a, mask a
    [] op.mode = "incf" -> <<old[1] + op.v[1], op.v[2]>>      \* before-interceptor adds old.a, no mask
    [] op.mode = "aft"  -> <<op.v[1], old[2] + op.v[2]>>      \* after-interceptor: b becomes old.b + v.b

Refused(old, op) == \/ op.exp # <<>> /\ op.exp[1] # old
                    \/ op.chk # <<>> /\ old[1] < op.chk[1]

\* [code, ret, m]: ret is the stored value for a write, the removed one for a delete, <<>> if there is none
Out(code, ret, m) == [code |-> code, ret |-> ret, m |-> m]
SortedIds(m) == CHOOSE q \in [1..Cardinality(DOMAIN m) -> DOMAIN m] : TRUE

Effect(m, op) ==
  LET has == op.id \in DOMAIN m
      old == OldOf(m, op.id)
  IN CASE op.op = "write" ->
            LET faults == (IF has /\ op.absent THEN {"AlreadyExists"} ELSE {})
                          \cup (IF ~has /\ ~op.create THEN {"NotFound"} ELSE {})
                          \cup (IF Refused(old, op) THEN {"FailedPrecondition"} ELSE {})
            IN IF faults # {} THEN {Out(f, <<>>, m) : f \in faults}
               ELSE {Out("OK", NewVal(old, op), PutC(m, op.id, NewVal(old, op)))}
                    \* whether nothing is an acceptable expected zero message is not settled by the property
                    \cup (IF ~has /\ op.exp # <<>> THEN {Out("FailedPrecondition", <<>>, m)} ELSE {})
       [] op.op = "delete" ->
            IF ~has THEN IF op.allowMissing THEN {Out("OK", <<>>, m)} ELSE {Out("NotFound", <<>>, m)}
            ELSE IF Refused(old, op) THEN {Out("FailedPrecondition", <<>>, m)}
            ELSE {Out("OK", old, DropC(m, op.id))}
       [] op.op = "get" -> IF has THEN {Out("OK", old, m)} ELSE {Out("Missing", <<>>, m)}
       [] op.op = "list" -> {Out("OK", m, m)}
Mutates(op) == op.op \in {"write", "delete"}
=============================================================================
