------------------------------- MODULE CompareMC -------------------------------
(* The comparers of Compare.tla on a small domain: reflexive, symmetric, and equality an equivalence that the
   tolerances only widen on their own kind. *)
EXTENDS Compare, TLC
E0 == [x \in {} |-> 0]
Fl(c, v, n) == [k |-> "f", c |-> c, v |-> v, n |-> n]
Floats == {Fl("num", "0", 0), Fl("num", "1", 64), Fl("num", "1.5", 96), Fl("num", "-1", -64), Fl("nan", "NaN", 0), Fl("inf", "+Inf", 0), Fl("inf", "-Inf", 0)}
Tm(neg, l) == [neg |-> neg, l |-> l]
Ts(d, t) == [k |-> "msg", d |-> d, n |-> "T", ok |-> TRUE, t |-> t, u |-> E0, f |-> "seconds" :> [k |-> "s", v |-> "x"]]
Msg(n, f) == [k |-> "msg", d |-> n, n |-> n, ok |-> TRUE, f |-> f, u |-> E0]
\* each time is its own text too, so that equality can tell them apart
Times3 == {<<FALSE, <<5>>, "a">>, <<FALSE, <<7>>, "b">>, <<TRUE, <<5>>, "c">>, <<FALSE, <<0, 0, 0, 0, 3>>, "d">>}
TsOf(d) == {[Ts(d, Tm(x[1], x[2])) EXCEPT !.f = "seconds" :> [k |-> "s", v |-> x[3]]] : x \in Times3}
Stamps == TsOf("google.protobuf.Timestamp")
Durs == TsOf("google.protobuf.Duration")
Scalars == {[k |-> "s", v |-> "1"], [k |-> "s", v |-> "2"]}
Opt(n, S) == {E0} \cup {n :> v : v \in S}
Msgs == {[k |-> "nil"]} \cup {Msg("A", a) : a \in Opt("f", Floats)}
        \cup {Msg("A", a @@ b) : a \in Opt("t", Stamps), b \in Opt("i", Scalars)}
        \cup {Msg("A", a) : a \in Opt("du", Durs)}
        \cup {Msg("Change", a @@ b) : a \in Opt("change_time", Stamps), b \in Opt("i", Scalars)}
        \cup {Msg("A", "l" :> [k |-> "list", v |-> l]) : l \in {<<>>} \cup {<<v>> : v \in Floats} \cup {<<v, w>> : v, w \in Scalars}}
        \cup {[Msg("A", E0) EXCEPT !.ok = FALSE], Msg("B", E0)}
Cmps == {[t |-> "float", num |-> 0, den |-> 1, m |-> 32], [t |-> "float", num |-> 1, den |-> 2, m |-> 0],
         [t |-> "time", d |-> Tm(FALSE, <<2>>)], [t |-> "dur", d |-> Tm(FALSE, <<10>>)], [t |-> "durp", p |-> 30]}
Lists == {<<>>} \cup {<<c>> : c \in Cmps} \cup {<<c, d>> : c, d \in Cmps}
         \cup {<<[t |-> o, cs |-> <<c, d>>]>> : o \in {"and", "or"}, c, d \in Cmps}
VARIABLES x, y, cs
Init == x \in Msgs /\ y \in Msgs /\ cs \in Lists
Next == FALSE /\ UNCHANGED <<x, y, cs>>
Eq(c, p, q) == M([t |-> "equal", cs |-> c], p, q)
Inv == /\ Eq(cs, x, y) # {}
       /\ Eq(cs, x, y) = Eq(cs, y, x)
       /\ Eq(cs, x, x) = {TRUE}
       /\ Eq(<<>>, x, y) = {TRUE} => Eq(cs, x, y) = {TRUE}
       /\ Cardinality(Eq(<<>>, x, y)) = 1
       \* only their own kind
       /\ (cs # <<>> /\ x.k = "msg" /\ DOMAIN x.f \subseteq {"i"}) => Eq(cs, x, y) = Eq(<<>>, x, y)
\* equality is transitive
Trans == cs = <<>> /\ Eq(<<>>, x, y) = {TRUE} => \A z \in Msgs : Eq(<<>>, x, z) = Eq(<<>>, y, z)
Spec == Init /\ [][Next]_<<x, y, cs>>
=============================================================================
