-------------------------------- MODULE Store --------------------------------
(* The sequential meaning of resource.Value and resource.Collection.  The state is a map from id to message (a Value is
   a map with the single id "v"), the time each entry last changed, and the log of successful writes (what a
   subscriber with backpressure must be told).  A write request q carries every option:

     key      the id after the id interceptor           absent, create  expect-absent, create-if-absent
     src      the message written                        gen, gkey       generate an id if empty; the id it got
     M, W, R  update, writable, reset masks              hasExp, exp     expected value
     check    "" or the code the expected-check returns  wt, now         explicit write time (-1: none), clock

   Interceptors are part of the request as observed: before = what the written message became, after = what the
   merged message became. *)
EXTENDS Masks

Empty == [x \in {""} |-> <<"{}">>]
NilMsg == [x \in {"!nil"} |-> <<>>]

Key(q) == IF q.gen /\ q.id = "" THEN q.gkey ELSE q.key
Old(m, k) == IF k \in DOMAIN m THEN m[k] ELSE Empty

\* every reason for which the write may be refused in contents m; the write must succeed iff there is none
WriteFaults(S, m, q) ==
  LET k == Key(q)
      exists == k \in DOMAIN m
  IN (IF MustReject(S, q.M, q.W) THEN {"InvalidArgument"} ELSE {})
     \cup (IF ~ValidMask(S, q.R) THEN {"InvalidArgument", "Internal"} ELSE {})
     \cup (IF exists /\ q.absent THEN {"AlreadyExists"} ELSE {})
     \cup (IF ~exists /\ ~q.create THEN {"NotFound"} ELSE {})
     \cup (IF q.hasExp /\ q.exp # Old(m, k) THEN {"FailedPrecondition"} ELSE {})
     \cup (IF q.check # "" THEN {q.check} ELSE {})
\* refusing these is allowed but not required by the properties
WriteMayFail(S, q) == ~MustAccept(S, q.M, q.W, q.R)

DeleteFaults(m, q) ==
  IF q.key \notin DOMAIN m THEN (IF q.allowMissing THEN {} ELSE {"NotFound"})
  ELSE (IF q.hasExp /\ q.exp # m[q.key] THEN {"FailedPrecondition"} ELSE {})
       \cup (IF q.check # "" THEN {q.check} ELSE {})

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
When(q) == IF q.wt # -1 THEN q.wt ELSE q.now

VARIABLES m, t, log
storeVars == <<m, t, log>>

\* a write that succeeds and stores v: v is any result of the masked merge followed by the after interceptor
WriteOK(S, q, merged, v) ==
  LET k == Key(q)
  IN /\ WriteFaults(S, m, q) = {}
     /\ IsUpdate(S, Old(m, k), q.src, q.M, q.W, q.R, merged)
     /\ q.gen /\ q.id = "" => (k \notin DOMAIN m /\ k # "")
     /\ m' = Put(m, k, v)
     /\ t' = Put(t, k, When(q))
     /\ log' = Append(log, [id |-> k, kind |-> IF k \in DOMAIN m THEN "UPDATE" ELSE "ADD", time |-> When(q),
                            old |-> IF k \in DOMAIN m THEN m[k] ELSE NilMsg, new |-> v])
WriteFail(S, q, code) ==
  /\ \/ code \in WriteFaults(S, m, q)
     \/ WriteMayFail(S, q) /\ code = "InvalidArgument"
  /\ UNCHANGED storeVars

DeleteOK(q) ==
  /\ DeleteFaults(m, q) = {}
  /\ m' = Drop(m, q.key) /\ t' = Drop(t, q.key)
  /\ log' = IF q.key \in DOMAIN m
            THEN Append(log, [id |-> q.key, kind |-> "REMOVE", time |-> When(q), old |-> m[q.key], new |-> NilMsg])
            ELSE log
DeleteFail(q, code) == code \in DeleteFaults(m, q) /\ UNCHANGED storeVars
=============================================================================
