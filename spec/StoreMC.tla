------------------------------ MODULE StoreMC ------------------------------
(* Exhaustive small configuration of Store: two ids plus one that can be generated, messages over two scalar fields. *)
EXTENDS Store, TLC
CONSTANTS Ids, Vals, MaxLog
S == [a |-> [k |-> "scalar", o |-> ""], b |-> [k |-> "scalar", o |-> ""]]
Mk(a, b) == LET raw == ("a" :> a) @@ ("b" :> b)
            IN [p \in {q \in DOMAIN raw : raw[q] # <<>>} \cup {""} |-> IF p = "" THEN <<"{}">> ELSE raw[p]]
Opt == {<<>>} \cup {<<v>> : v \in Vals}
Msgs == {Mk(a, b) : a \in Opt, b \in Opt}
Nil == [nil |-> TRUE, p |-> <<>>]
Msk(s) == [nil |-> FALSE, p |-> s]
GenId == "g"
Reqs == {[id |-> i, key |-> i, gen |-> g, gkey |-> GenId, absent |-> ab, create |-> cr, src |-> s, M |-> mm, W |-> w,
          R |-> Nil, hasExp |-> e # <<>>, exp |-> IF e = <<>> THEN Empty ELSE e[1], check |-> ch, wt |-> -1, now |-> 1] :
          i \in Ids \cup {""}, g \in {TRUE, FALSE}, ab \in {TRUE, FALSE}, cr \in {TRUE, FALSE}, s \in {Mk(<<v>>, <<>>) : v \in Vals} \cup {Mk(<<>>, <<"1">>)},
          mm \in {Nil, Msk(<<"a">>), Msk(<<"x">>)}, w \in {Nil, Msk(<<"b">>)}, e \in {<<>>, <<Mk(<<"1">>, <<>>)>>}, ch \in {"", "Unknown"}}
Dels == {[key |-> i, allowMissing |-> am, hasExp |-> FALSE, exp |-> Empty, check |-> ch, wt |-> -1, now |-> 1] :
          i \in Ids \cup {GenId}, am \in {TRUE, FALSE}, ch \in {"", "Unknown"}}
VARIABLE res
vars == <<m, t, log, res>>
Init == m = [x \in {} |-> <<>>] /\ t = [x \in {} |-> 0] /\ log = <<>> /\ res = "init"
DoWrite == \E q \in Reqs :
             \/ \E v \in {Apply(S, Old(m, Key(q)), q.src, q.M, q.W, q.R)} : WriteOK(S, q, v, v) /\ res' = "OK"
             \/ \E c \in {"InvalidArgument", "AlreadyExists", "NotFound", "FailedPrecondition", "Unknown"} :
                  WriteFail(S, q, c) /\ res' = c
DoDelete == \E q \in Dels :
             \/ DeleteOK(q) /\ res' = "OK"
             \/ \E c \in {"NotFound", "FailedPrecondition", "Unknown"} : DeleteFail(q, c) /\ res' = c
Next == Len(log) < MaxLog /\ (DoWrite \/ DoDelete)
Spec == Init /\ [][Next]_vars
View == <<m, log, res>>

TypeOK == DOMAIN t = DOMAIN m /\ \A k \in DOMAIN m : "" \in DOMAIN m[k]
\* folding the log of successful writes gives the contents: the log is a faithful edit script
RECURSIVE Fold(_)
Fold(s) == IF s = <<>> THEN [x \in {} |-> <<>>]
           ELSE LET p == Fold(SubSeq(s, 1, Len(s) - 1))
                    e == s[Len(s)]
                IN IF e.kind = "REMOVE" THEN Drop(p, e.id) ELSE Put(p, e.id, e.new)
Script == Fold(log) = m
Chain == \A i \in DOMAIN log : LET p == Fold(SubSeq(log, 1, i - 1))
                               IN /\ log[i].kind = "ADD" <=> log[i].id \notin DOMAIN p
                                  /\ log[i].kind # "ADD" => log[i].old = p[log[i].id]
FailuresChangeNothing == [][res' # "OK" => UNCHANGED <<m, t, log>>]_vars
=============================================================================
