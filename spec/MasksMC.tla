------------------------------ MODULE MasksMC ------------------------------
(* A masked register: every pair of small messages, every mask triple.  Checks that the reading and writing operators
   mean what the properties say: frame condition, idempotence, independence, and that the relation used as the oracle
   rejects any change outside the touched paths. *)
EXTENDS Masks, TLC
CONSTANT Vals
S == [a |-> [k |-> "scalar", o |-> ""],
      b |-> [k |-> "msg", o |-> ""], 
      l |-> [k |-> "list", o |-> ""]]
     @@ ("b.c" :> [k |-> "scalar", o |-> ""]) @@ ("b.d" :> [k |-> "scalar", o |-> ""])
Opt(p) == {<<>>} \cup {<<v>> : v \in Vals}
Mk(a, b, c, d, l) ==
  LET raw == ("a" :> a) @@ ("b" :> b) @@ ("b.c" :> c) @@ ("b.d" :> d) @@ ("l" :> l)
  IN [p \in {q \in DOMAIN raw : raw[q] # <<>>} \cup {""} |-> IF p = "" THEN <<"{}">> ELSE raw[p]]
Msgs == {Mk(a, <<>>, <<>>, <<>>, l) : a \in Opt("a"), l \in Opt("l")}
        \cup {Mk(a, <<"{}">>, c, d, l) : a \in Opt("a"), c \in Opt("c"), d \in Opt("d"), l \in Opt("l")}
Paths == {"a", "b", "b.c", "l"}
Nil == [nil |-> TRUE, p |-> <<>>]
Msk(s) == [nil |-> FALSE, p |-> s]
MaskSet == {Nil, Msk(<<>>)} \cup {Msk(<<p>>) : p \in Paths} \cup {Msk(<<"a", "b.c">>), Msk(<<"b", "b.c">>), Msk(<<"a", "a">>)}

VARIABLES pre, post, req
vars == <<pre, post, req>>
Init == pre \in Msgs /\ post = pre /\ req = <<>>
Write(src, M, W, R) ==
  /\ req = <<>>
  /\ req' = <<src, M, W, R>>
  /\ pre' = pre
  /\ post' = IF MustReject(S, M, W) THEN pre ELSE Apply(S, pre, src, M, W, R)
Next == \E src \in Msgs, M \in MaskSet, W \in MaskSet, R \in {Nil, Msk(<<"a">>), Msk(<<"b.d">>)} : Write(src, M, W, R)
Spec == Init /\ [][Next]_vars

Done == req # <<>>
src == req[1]  M == req[2]  W == req[3]  R == req[4]
Accepted == Done /\ ~MustReject(S, M, W)
E == Touch(S, M, W)
r == IF R.nil THEN {} ELSE Range(R.p)
Disturb(p, v) == [q \in DOMAIN post \cup {p} |-> IF q = p THEN v ELSE post[q]]

RelationHolds == Accepted => IsUpdate(S, pre, src, M, W, R, post)
Frame == Accepted => \A p \in DOMAIN S : (~Covered(E, p) /\ ~Contains(E, p) /\ ~Covered(r, p)) => At(post, p) = At(pre, p)
ScalarsWritten == (Accepted /\ ~(~M.nil /\ M.p = <<>>)) =>
   \A p \in {"a", "b.c"} : (p \in E /\ (M.nil \/ (p \in Range(M.p) /\ ~\E q \in Range(M.p) : q # p /\ Under(p, q)))
                             /\ ~Covered(r, p)) => At(post, p) = At(src, p)
EmptyMaskNothing == (Accepted /\ ~M.nil /\ M.p = <<>>) => post = pre
\* the oracle refuses any change outside what was asked for
RelationRejects ==
  Accepted => \A p \in {"a", "b.c", "b.d", "l"} : \A v \in Vals :
     (~Covered(E, p) /\ ~Covered(r, p) /\ At(pre, p) # <<v>> /\ (p \in {"a", "l"} \/ At(post, "b") # <<>>))
       => ~IsUpdate(S, pre, src, M, W, R, Disturb(p, <<v>>))
ProjectionLaws ==
  \A K \in MaskSet : LET x == Project(pre, K)
                     IN /\ IsProjection(pre, K, x)
                        /\ Project(x, K) = x
                        /\ (~K.nil => \A p \in DOMAIN x : p = "" \/ Covered(Range(K.p), p) \/ Contains(Range(K.p), p))
=============================================================================
